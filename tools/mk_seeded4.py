import shutil, subprocess
exec(open("/verif/tools/mk_seeded.py").read().split('mk("F01-sum')[0])
EXTRA={
 "z01-bittest-beta": (["Z01"], [("src/linear_gkr/zk_verifier.cpp", "one_block_beta[13].value = one_block_beta[13].value + (beta_g_r1_block_first_half[g_first_half].value * beta_g_r1_block_second_half[g_second_half].value) % prime_field::mod * uv_value;\n					one_block_alpha[13].value = one_block_alpha[13].value % prime_field::mod;", "one_block_beta[13].value = one_block_beta[13].value + (beta_g_r1_block_first_half[g_first_half].value * beta_g_r0_block_second_half[g_second_half].value) % prime_field::mod * uv_value;\n					one_block_alpha[13].value = one_block_alpha[13].value % prime_field::mod;")]),
}
open("/tmp/x4.py","w").write("M="+repr(EXTRA)+"\n")
VP="src/VPD/inputvpd.cpp src/VPD/vpdR.cpp src/VPD/vpd_test.cpp"
ZK=VP+" src/linear_gkr/zk_verifier.cpp src/linear_gkr/zk_prover.cpp src/linear_gkr/polynomial.cpp src/linear_gkr/prime_field.cpp"
def build(src, extra=""):
    return ('cp "$here/kit_bn.h" "$d/bn.h"\nclang++ -std=c++11 -O1 -w -maes -msse4.1 -I "$d" -I include "$here/demo.cpp" %s -o "$d/tool" -lgmpxx -lgmp %s || exit 2\ncd "$d" || exit 2\n' % (src, extra))
def go(i, prop, needs, breaks, sh, pat, **files):
    mk(i, prop, needs, breaks, sh, **files)
    shutil.copy("/verif/tools/kit_bn.h", "/verif/seeded/"+i+"/kit_bn.h")
    f = "/tmp/x4.py" if pat in EXTRA else "/verif/tools/zk_muts.py"
    subprocess.check_call(["python3","/verif/tools/mut.py","patch",f,pat,"/verif/seeded/"+i+"/patch.diff"])
INIT='	prime_field::init("16798108731015832284940804142231733909759579603404752749028378864165570215949", 10);\n'
RUN='''#include "linear_gkr/zk_verifier.h"
#include "linear_gkr/zk_prover.h"
#include <cstdio>
#include <cstdlib>
static zk_verifier v; static zk_prover p;
static void setup()
{
'''+INIT+'''	p.total_time = 0; v.get_prover(&p); v.read_circuit("c.txt", "m.txt"); p.get_circuit(v.C);
}
'''
CIR='''python3 - <<'PY'
rep, blk = 2, 4
L = [[(3, 7 * k + 2, 0) for k in range(8)]]
L.append([(t, u + 4 * b, v + 4 * b) for b in range(rep) for t, u, v in ((0, 0, 1), (1, 1, 2), (7, 2, 3), (0, 3, 0))])
L.append([(t, u + 4 * b, v + 4 * b) for b in range(rep) for t, u, v in ((13, 1, 1), (1, 1, 2), (13, 3, 3), (0, 2, 3))])
L.append([(t, u + 4 * b, v + 4 * b) for b in range(rep) for t, u, v in ((1, 0, 1), (7, 1, 2), (0, 2, 3), (1, 3, 0))])
open("c.txt", "w").write("%d\\n" % len(L) + "".join("%d %s\\n" % (len(l), " ".join("%d %d %d %d" % (t, g, u, v) for g, (t, u, v) in enumerate(l))) for l in L))
open("m.txt", "w").write("".join("1 %d %d 2 1\\n" % (blk, rep) for l in L))
PY
'''
go("Z01-bit-test-block","Z01","a parallel layer, followed by another one, with bit-test gates in the upper half of a block",
 "the predicate of bit-test gates mixes the two evaluation points, so an honest proof is rejected",build(ZK)+CIR+'"$d/tool" >out.txt 2>err.txt || { tail -3 err.txt; echo "honest proof rejected"; exit 1; }\necho accepted\n',"z01-bittest-beta",
 demo_dot_cpp=RUN+'int main() { setup(); return v.verify("result.txt") ? 0 : 1; }\n')
go("Z02-opening-overwrite","Z02","the opening of the masking polynomial altered in its first of the two calls only",
 "the verdict on the first opening of a layer's masking polynomial is dropped, so an altered proof is accepted",
 build(ZK,"-Wl,--wrap=_ZN9zk_prover7prove_RESt6vectorI10__gmp_exprIA1_12__mpz_structS3_ESaIS4_EERS4_")+CIR+'''"$d/tool" -1 >out.txt 2>err.txt || { echo "honest proof rejected"; exit 2; }
for k in 0 1 2 3 4 5; do
	if "$d/tool" $k >out.txt 2>err.txt; then echo "proof with opening $k altered is accepted"; exit 1; fi
done
echo "altered proofs are rejected"
''',"z-R-second-only",
 demo_dot_cpp=RUN+'''static int target, calls;
typedef std::pair<std::vector<bn::Ec1>, std::vector<bn::Ec1> > PV;
PV real(zk_prover *, std::vector<mpz_class>, mpz_class &) asm("__real__ZN9zk_prover7prove_RESt6vectorI10__gmp_exprIA1_12__mpz_structS3_ESaIS4_EERS4_");
PV wrap(zk_prover *, std::vector<mpz_class>, mpz_class &) asm("__wrap__ZN9zk_prover7prove_RESt6vectorI10__gmp_exprIA1_12__mpz_structS3_ESaIS4_EERS4_");
PV wrap(zk_prover *q, std::vector<mpz_class> r, mpz_class &ans)
{
	PV w = real(q, r, ans);
	if (calls++ == target) w.first[0] += w.first[0] + bn::Ec1::log(mpz_class(1));
	return w;
}
int main(int argc, char **argv) { target = atoi(argv[1]); setup(); return v.verify("result.txt") ? 0 : 1; }
''')
VH='''#include "bn.h"
#include "linear_gkr/prime_field.h"
#include <vector>
#include <cstdio>
#include <cstdlib>
#include "VPD/input_vpd.h"
using namespace bn;
'''
go("Z03-large-halves","Z03","an opening of an input polynomial of at least five variables (halves of more than eight coefficients)",
 "a coefficient is subtracted twice while the opening is computed, so the value opened for a larger polynomial is another one's",
 build(VP+" src/linear_gkr/prime_field.cpp")+'"$d/tool" >out.txt; r=$?; grep -a RESULT out.txt; exit $r\n',"z-pre-input-neg",
 demo_dot_cpp=VH+'''int main()
{
'''+INIT+'''	input_vpd::environment_init();
	for (int d = 1; d <= 6; ++d)
	{
		input_vpd::KeyGen(d);
		std::vector<mpz_class> in, in2, r; Ec1 g1, g1a, g2, g2a; std::vector<Ec1> w, wa; mpz_class ans, Z(0);
		for (int i = 0; i < 1 << d; ++i) in.push_back(mpz_class(17 * i * i + 3));
		in2.push_back(mpz_class(5)); in2.push_back(mpz_class(9)); in.push_back(mpz_class(0));
		for (int i = 0; i < d; ++i) r.push_back(mpz_class(1000 + 31 * i));
		auto rf = input_vpd::commit(g1, g1a, g2, g2a, in, in2);
		input_vpd::prove(r, ans, in, in2, w, wa, rf.first, rf.second, Z);
		mpz_class mle(0);
		for (int i = 0; i < 1 << d; ++i) { mpz_class t = 17 * i * i + 3; for (int b = 0; b < d; ++b) t = red(t * (i >> b & 1 ? r[b] : mpz_class(1 - r[b]))); mle += t; }
		if (red(ans) != red(mle)) { printf("RESULT %d variables: the opening is not the value of the polynomial\\n", d); return 1; }
		bool ok = input_vpd::check_commit(g1, g1a, g2, g2a) & input_vpd::verify(r, g1, g2, Z, ans, w, wa);
		printf("RESULT %d variables: %s\\n", d, ok ? "accepted" : "REJECTED");
		if (!ok) return 1;
	}
	return 0;
}
''')
go("Z03-mask-companion","Z03","a commitment whose second element does not match its companion",
 "the second digest's companion is never compared, so a commitment to nothing known passes",
 build(VP+" src/linear_gkr/prime_field.cpp")+'"$d/tool" >out.txt; r=$?; grep -a RESULT out.txt; exit $r\n',"z-digest2-unchecked",
 demo_dot_cpp=VH+'''int main()
{
'''+INIT+'''	input_vpd::environment_init(); input_vpd::KeyGen(3);
	std::vector<mpz_class> in(9, mpz_class(7)), in2(2, mpz_class(3)); in[8] = 0;
	Ec1 x[4];
	input_vpd::commit(x[0], x[1], x[2], x[3], in, in2);
	if (!input_vpd::check_commit(x[0], x[1], x[2], x[3])) { printf("RESULT honest commitment rejected\\n"); return 1; }
	for (int k = 0; k < 4; ++k)
	{
		Ec1 y[4] = {x[0], x[1], x[2], x[3]};
		y[k] += y[k] + Ec1::log(mpz_class(1));
		if (input_vpd::check_commit(y[0], y[1], y[2], y[3])) { printf("RESULT altered element %d passes\\n", k); return 1; }
	}
	printf("RESULT companions are compared\\n");
	return 0;
}
''')
go("Z04-wide-weights","Z04","a bit-weighted sum over more than 31 gates",
 "the weights of the upper bits of a weighted sum overflow, so the prover reports another output",
 build(ZK)+'''python3 - <<'PY'
n = 64
L = [[(3, k % 2, 0) for k in range(n)], [(12, 1, n - 1), (12, 0, 39), (12, 5, 40), (12, 8, 20)]]
open("c.txt", "w").write("2\\n" + "".join("%d %s\\n" % (len(l), " ".join("%d %d %d %d" % (t, g, u, v) for g, (t, u, v) in enumerate(l))) for l in L))
open("m.txt", "w").write("0 0 0 0 0\\n" * 2)
open("want.txt", "w").write("\\n".join(str(sum((k % 2) << (k - u) for k in range(u, v + 1))) for t, u, v in L[1]) + "\\n")
PY
"$d/tool" 4 >got.txt 2>err.txt; grep -a '^OUT' got.txt | sed 's/OUT //' >g.txt
cmp g.txt want.txt || { paste g.txt want.txt; exit 1; }
echo "outputs are right"
''',"z-eval-exp-int",
 demo_dot_cpp=RUN+'''int main(int argc, char **argv)
{
	setup(); p.proof_init();
	prime_field::field_element *r = p.evaluate();
	for (int i = 0; i < atoi(argv[1]); ++i) printf("OUT %s\\n", r[i].to_gmp_class().get_str().c_str());
	return 0;
}
''')
go("Z05-table-corner","Z05","eight scalars one of whose bit columns reads 11111101",
 "one entry of the table of subset sums is wrong, so the multi-exponentiation is wrong for scalars with that bit pattern",
 build(VP+" src/linear_gkr/prime_field.cpp")+'"$d/tool" >out.txt; r=$?; grep -a RESULT out.txt; exit $r\n',"z-msc-table",
 demo_dot_cpp=VH+'''namespace input_vpd { extern std::vector<Ec1> pub_g1; Ec1 multi_scalar_calc(int, int, const std::vector<mpz_class> &); }
int main()
{
'''+INIT+'''	input_vpd::environment_init(); input_vpd::KeyGen(4);
	for (int pat = 0; pat < 256; ++pat)
	{
		std::vector<mpz_class> x(8); mpz_class want(0);
		for (int j = 0; j < 8; ++j) { if (pat >> j & 1) x[j] = mpz_class(1) << 100; want += x[j] * input_vpd::pub_g1[8 + j].e; }
		if (red(want) != red(input_vpd::multi_scalar_calc(1, 17, x).e)) { printf("RESULT bit column %d is wrong\\n", pat); return 1; }
	}
	printf("RESULT all columns are right\\n");
	return 0;
}
''')
