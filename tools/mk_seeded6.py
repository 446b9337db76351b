src=open("/verif/tools/mk_seeded4.py").read()
i=src.index('go("Z01-bit'); exec(src[:i])
def gof(i, prop, needs, breaks, sh, mf, pat, **files):
    mk(i, prop, needs, breaks, sh, **files)
    shutil.copy("/verif/tools/kit_bn.h", "/verif/seeded/"+i+"/kit_bn.h")
    subprocess.check_call(["python3","/verif/tools/mut.py","patch","/verif/tools/"+mf,pat,"/verif/seeded/"+i+"/patch.diff"])
W1="-Wl,--wrap=_ZN9zk_prover25generate_maskpoly_pre_rhoEii"
P0="#define private public\n"+RUN
gof("Z06-mask-commitment","Z06","two proofs that differ only in the first group element of a mask commitment",
 "the first element of the mask commitment is not part of the transcript, so the masking challenge does not depend on it",
 build(ZK,W1)+CIR+'"$d/tool" >out.txt 2>err.txt || { tail -2 out.txt; exit 1; }\n',"fs_muts.py","fs-mask-one",
 demo_dot_cpp=P0+'''static std::vector<bn::Ec1> sent;
std::vector<bn::Ec1> real(zk_prover *, int, int) asm("__real__ZN9zk_prover25generate_maskpoly_pre_rhoEii");
std::vector<bn::Ec1> wrap(zk_prover *, int, int) asm("__wrap__ZN9zk_prover25generate_maskpoly_pre_rhoEii");
std::vector<bn::Ec1> wrap(zk_prover *q, int a, int b) { std::vector<bn::Ec1> r = real(q, a, b); sent.insert(sent.end(), r.begin(), r.end()); return r; }
int main()
{
	setup();
	if(!v.verify("result.txt")) { puts("honest proof rejected"); return 2; }
	for(size_t k = 0; k < sent.size(); ++k)
	{
		bool found = false;
		for(auto &x : v.trans.msg) found |= x.indicator == container::curve_ele_indicator && x.curve_ele == sent[k];
		if(!found) { printf("mask commitment element %zu is not in the transcript\\n", k); return 1; }
	}
	return sent.empty() ? 2 : 0;
}
''')
W2="-Wl,--wrap=_ZN9zk_prover29sumcheck_phase1_updatelastbitEN11prime_field13field_elementEi"
gof("Z06-last-coefficient","Z06","a round polynomial that differs in its constant coefficient only, in the last round of the first phase",
 "the constant coefficient of a round polynomial is not part of the transcript its challenge is drawn from",
 build(ZK,W2)+CIR+'"$d/tool" >out.txt 2>err.txt || { tail -2 out.txt; exit 1; }\n',"fs_muts.py","fs-poly-f",
 demo_dot_cpp=P0+'''static std::vector<field_element> sent;
#define FE prime_field::field_element
quintuple_poly real(zk_prover *, FE, int) asm("__real__ZN9zk_prover29sumcheck_phase1_updatelastbitEN11prime_field13field_elementEi");
quintuple_poly wrap(zk_prover *, FE, int) asm("__wrap__ZN9zk_prover29sumcheck_phase1_updatelastbitEN11prime_field13field_elementEi");
quintuple_poly wrap(zk_prover *q, FE a, int b) { quintuple_poly r = real(q, a, b); FE c[6] = {r.a, r.b, r.c, r.d, r.e, r.f}; sent.insert(sent.end(), c, c + 6); return r; }
int main()
{
	setup();
	if(!v.verify("result.txt")) { puts("honest proof rejected"); return 2; }
	for(size_t k = 0; k < sent.size(); ++k)
	{
		bool found = false;
		for(auto &x : v.trans.msg) found |= x.indicator == container::fld_ele_indicator && !(x.fld_ele != sent[k]);
		if(!found) { printf("round polynomial coefficient %zu is not in the transcript\\n", k % 6); return 1; }
	}
	return sent.empty() ? 2 : 0;
}
'''.replace("std::vector<field_element>","std::vector<prime_field::field_element>"))
gof("Z08-mask-reused","Z08","a circuit of at least three layers: the masks of two of them coincide",
 "the masking polynomial of the second layer is the third layer's again, so masked claims of different layers reveal a relation between secret values",
 build(ZK,"-Wl,--wrap=_ZN9zk_prover25generate_maskpoly_pre_rhoEii")+CIR+'"$d/tool" >out.txt 2>err.txt || { tail -2 out.txt; exit 1; }\n',"hide_muts.py","hd-R-once",
 demo_dot_cpp="#define private public\n"+RUN+'''static std::vector<std::vector<prime_field::field_element> > masks;
std::vector<bn::Ec1> real(zk_prover *, int, int) asm("__real__ZN9zk_prover25generate_maskpoly_pre_rhoEii");
std::vector<bn::Ec1> wrap(zk_prover *, int, int) asm("__wrap__ZN9zk_prover25generate_maskpoly_pre_rhoEii");
std::vector<bn::Ec1> wrap(zk_prover *q, int a, int b) { masks.push_back(std::vector<prime_field::field_element>(q->maskR, q->maskR + 6)); return real(q, a, b); }
int main()
{
	setup();
	if(!v.verify("result.txt")) { puts("honest proof rejected"); return 2; }
	for(size_t i = 0; i < masks.size(); ++i)
		for(size_t j = 0; j < i; ++j)
		{
			bool same = true;
			for(int k = 0; k < 6; ++k) same &= !(masks[i][k] != masks[j][k]);
			if(same) { printf("layers reuse one mask\\n"); return 1; }
		}
	return masks.size() < 3 ? 2 : 0;
}
''')
gof("Z08-opening-unblinded","Z08","two openings of the same inputs at one point",
 "the first opening witness of the inputs is not blinded, so it is a function of the inputs",
 build("src/VPD/inputvpd.cpp src/linear_gkr/prime_field.cpp")+'"$d/tool" >out.txt 2>err.txt || { tail -2 out.txt; exit 1; }\n',"hide_muts.py","hd-t-zero",
 demo_dot_cpp='''#include "VPD/input_vpd.h"
#include "linear_gkr/prime_field.h"
#include <cstdio>
int main()
{
'''+INIT+'''	std::vector<mpz_class> in = {3, 5, 7, 11, 0}, mask = {17, 19}, r = {23, 29};
	std::vector<bn::Ec1> w[2], wa[2];
	input_vpd::environment_init();
	input_vpd::KeyGen(2);
	bn::Ec1 d, da, m, ma;
	auto f = input_vpd::commit(d, da, m, ma, in, mask);
	mpz_class ans, Z(37);
	for(int k = 0; k < 2; ++k) input_vpd::prove(r, ans, in, mask, w[k], wa[k], f.first, f.second, Z);
	for(size_t i = 0; i < w[0].size(); ++i)
		if(w[0][i] == w[1][i]) { printf("witness %zu is not blinded\\n", i); return 1; }
	return 0;
}
''')
