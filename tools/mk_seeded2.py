exec(open("/verif/tools/mk_seeded.py").read().split("mk(\"F01")[0])
COMMON='src/linear_gkr/prime_field.cpp src/linear_gkr/polynomial.cpp'
SRC={"fast":"src/linear_gkr/verifier_fast_track.cpp src/linear_gkr/prover_fast_track.cpp","trad":"src/traditional_gkr/verifier_traditional.cpp src/traditional_gkr/prover_clogc.cpp","bc":"src/traditional_gkr/verifier_bc_clogc.cpp src/traditional_gkr/prover_bc_clogc.cpp"}
W={"i2":"_ZN6prover20sumcheck_phase2_initEN11prime_field13field_elementEPKS1_S3_","random":"_ZN11prime_field6randomEv","fin":"_ZN6prover17sumcheck_finalizeEN11prime_field13field_elementE","p0":"_ZN6prover22sumcheck_phase0_updateEN11prime_field13field_elementEi","p1":"_ZN6prover22sumcheck_phase1_updateEN11prime_field13field_elementEi","vres":"_ZN6prover5V_resEPKN11prime_field13field_elementES3_S3_ii","vresb":"_ZN6prover5V_resEPKN11prime_field13field_elementES3_S3_S3_S3_iii","verify":"_ZN8verifier6verifyEv"}
def gkr(prog, wraps=(), extra="", main='"$here/demo.cpp"', run='"$d/demo"'):
    return ('root=$PWD\ncd "$d" || exit 2\nobjs=\nfor s in '+COMMON+' '+SRC[prog]+' '+extra+'; do\n  clang++ -std=c++11 -O1 -w -I "$root/include" -c "$root/$s" -o "$d/$(basename "$s").o" || exit 2\n  objs="$objs $d/$(basename "$s").o"\ndone\n'
      'clang++ -std=c++11 -O1 -w -I "$root/include" '+main+' $objs '+" ".join("-Wl,--wrap="+W[w] for w in wraps)+' -o "$d/demo" -lgmp -lgmpxx || exit 2\n'+run)
HDR={"fast":'#include "linear_gkr/verifier_fast_track.h"\n#include "linear_gkr/prover_fast_track.h"\n',"trad":'#include "traditional_gkr/verifier_traditional.h"\n#include "traditional_gkr/prover_clogc.h"\n',"bc":'#include "traditional_gkr/verifier_bc_clogc.h"\n#include "traditional_gkr/prover_bc_clogc.h"\n'}
PRE='''#include <cstdio>
#include <cstdlib>
#include <string>
typedef prime_field::field_element F;
static const char *PS = "16798108731015832284940804142231733909759579603404752749028378864165570215949";
verifier v; prover p;
static F inv(F x) { mpz_class a = x.to_gmp_class(), m(PS), r; mpz_invert(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); std::string s = r.get_str(); F y; y.value = prime_field::u512b(s.c_str(), (int)s.size(), 10); return y; }
static void write(const char *f, const std::string &s) { FILE *o = fopen(f, "w"); fputs(s.c_str(), o); fclose(o); }
'''
T={
"fast":'''static bool run() { p.total_time = 0; v.get_prover(&p); v.read_circuit("c.txt"); p.get_circuit(v.C); return v.verify(); }
''',
"trad":'''static void load() { p.total_time = 0; v.get_prover(&p); FILE *f = fopen("c.txt", "r"); v.read_circuit_from_FILE(f); fclose(f); p.get_circuit(v.C); }
static bool run() { load(); return v.verify(); }
''',
"bc":'''static int LOG = 1;
static void load() { v.set_blocks(1 << LOG, LOG); p.total_time = 0; v.get_prover(&p); v.read_circuit("c.txt", 1 << LOG); p.get_circuit(v.C); }
static bool run() { load(); return v.verify(); }
'''}
INIT='prime_field::init(PS, 10);\n'
mk("C01-sum-first","C01","a sum gate whose range is exactly the first gate of the layer below",
 "the prover leaves the one-element sum over operand 0 out of its second phase, so an honest proof is rejected",
 gkr("fast"),demo_dot_cpp=HDR["fast"]+PRE+T["fast"]+'''
int main() {
	'''+INIT+'''	write("c.txt", "3\\n4 3 0 5 0 3 1 7 0 3 2 11 0 3 3 13 0\\n4 0 0 0 1 1 1 1 2 0 2 2 3 1 3 0 3\\n2 5 0 0 1 5 1 1 4\\n");
	bool ok = run();
	printf("honest proof %s\\n", ok ? "accepted" : "REJECTED");
	return !ok;
}
''')
mk("C02-xor-equal","C02","an exclusive-or gate with equal operands that are not bits",
 "the output is 0 instead of 2a - 2a^2",
 gkr("fast"),demo_dot_cpp=HDR["fast"]+PRE+T["fast"]+'''
int main() {
	'''+INIT+'''	write("c.txt", "2\\n4 3 0 3 0 3 1 3 0 3 2 1 0 3 3 0 0\\n4 8 0 0 1 8 1 2 3 8 2 2 2 8 3 0 2\\n");
	p.total_time = 0; v.get_prover(&p); v.read_circuit("c.txt"); p.get_circuit(v.C);
	F *o = p.evaluate();
	F want[4] = { F(6) - F(18), F(1), F(0), F(3) + F(1) - F(6) };
	int bad = 0;
	for(int i = 0; i < 4; ++i) if(o[i] != want[i]) bad++;
	printf("%d outputs wrong\\n", bad);
	return bad != 0;
}
''')
mk("C03-one-combiner","C03","a prover that shifts its two final claims of a layer of addition gates in opposite directions",
 "the two combination coefficients handed to the next layer are equal, so false claims v_u + d, v_v - d are accepted",
 gkr("fast",["fin","i2"]),demo_dot_cpp=HDR["fast"]+PRE+T["fast"]+'''
static bool cheat;
static int calls;
extern "C" {
	void __real__ZN6prover20sumcheck_phase2_initEN11prime_field13field_elementEPKS1_S3_(prover *, F, const F *, const F *);
	void __wrap__ZN6prover20sumcheck_phase2_initEN11prime_field13field_elementEPKS1_S3_(prover *q, F r, const F *a, const F *b) {
		__real__ZN6prover20sumcheck_phase2_initEN11prime_field13field_elementEPKS1_S3_(q, r, a, b);
		if(cheat && calls++ == 0) q -> v_u = q -> v_u + F(12345);
	}
	std::pair<F, F> __real__ZN6prover17sumcheck_finalizeEN11prime_field13field_elementE(prover *, F);
	std::pair<F, F> __wrap__ZN6prover17sumcheck_finalizeEN11prime_field13field_elementE(prover *q, F r) {
		std::pair<F, F> c = __real__ZN6prover17sumcheck_finalizeEN11prime_field13field_elementE(q, r);
		if(cheat && calls == 1) { calls++; c.second = c.second - F(12345); q -> v_v = c.second; }
		return c;
	}
}
int main(int argc, char **argv) {
	cheat = argc > 1;
	'''+INIT+'''	write("c.txt", "4\\n4 3 0 5 0 3 1 7 0 3 2 11 0 3 3 13 0\\n4 0 0 0 1 1 1 1 2 0 2 2 3 1 3 0 3\\n4 0 0 0 1 1 1 1 2 0 2 2 3 1 3 0 3\\n4 0 0 1 0 0 1 1 3 0 2 2 0 0 3 2 3\\n");
	return run() ? 0 : 3;
}
'''); 
# two runs: honest accepted, cheating rejected
def two(i):
    f=R+i+"/demo.sh"; s=open(f).read()
    s=s.rstrip(); assert s.endswith('"$d/demo"')
    s=s[:-len('"$d/demo"')]+'''"$d/demo" >/dev/null 2>&1 || { echo "honest proof rejected"; exit 1; }
if "$d/demo" cheat >/dev/null 2>&1; then echo "false claim accepted"; exit 1; fi
echo "false claim rejected"
'''
    open(f,"w").write(s)
two("C03-one-combiner")
mk("T01-zero-challenge","T01","a first-phase challenge that is zero in a round that is not the last",
 "the prover does not fold its tables when the challenge is zero, so its next message is wrong and an honest proof is rejected",
 gkr("trad",["random"]),demo_dot_cpp=HDR["trad"]+PRE+T["trad"]+'''
static int at = -1, n;
extern "C" {
	F __real__ZN11prime_field6randomEv();
	F __wrap__ZN11prime_field6randomEv() { F x = __real__ZN11prime_field6randomEv(); return n++ == at ? F(0) : x; }
}
int main(int argc, char **argv) {
	at = atoi(argv[1]);
	'''+INIT+'''	write("c.txt", "3\\n8 3 0 5 0 3 1 7 0 3 2 11 0 3 3 13 0 3 4 2 0 3 5 3 0 3 6 4 0 3 7 9 0\\n4 0 0 0 1 1 1 4 2 0 2 2 7 1 3 5 3\\n4 0 0 0 1 1 1 1 2 0 2 2 3 1 3 0 3\\n");
	return run() ? 0 : 3;
}
''')
f=R+"T01-zero-challenge/demo.sh"; s=open(f).read().rstrip(); s=s[:-len('"$d/demo"')]+'''for k in $(seq 0 30); do
  timeout 20 "$d/demo" $k >/dev/null 2>&1 || { echo "honest proof rejected when draw $k is zero"; exit 1; }
done
echo "accepted for every position of a zero challenge"
'''
open(f,"w").write(s)
mk("T02-shared-gate","T02","neighbouring gates with the same operands and different types",
 "the second gate takes over the first one's value",
 gkr("trad"),demo_dot_cpp=HDR["trad"]+PRE+T["trad"]+'''
int main() {
	'''+INIT+'''	write("c.txt", "2\\n4 3 0 3 0 3 1 5 0 3 2 7 0 3 3 11 0\\n4 0 0 0 1 1 1 0 1 1 2 2 3 1 3 2 3\\n");
	load();
	F *o = p.evaluate();
	int want[4] = {8, 15, 77, 77}, bad = 0;
	for(int i = 0; i < 4; ++i) if(o[i] != F(want[i])) bad++;
	printf("%d outputs wrong\\n", bad);
	return bad != 0;
}
''')
mk("T03-predictable","T03","a layer over at least 32 values and a prover that uses an already announced challenge",
 "challenges from the fifth on repeat earlier ones, so a prover can prepare a false claim about the output",
 gkr("trad",["vres","p1"]),demo_dot_cpp=HDR["trad"]+PRE+T["trad"]+'''
static bool cheat; static F d, r0; static bool done;
static bool first = true;
extern "C" {
	F __real__ZN6prover5V_resEPKN11prime_field13field_elementES3_S3_ii(prover *, const F *, const F *, const F *, int, int);
	F __wrap__ZN6prover5V_resEPKN11prime_field13field_elementES3_S3_ii(prover *q, const F *a, const F *b, const F *c, int e, int f) {
		F x = __real__ZN6prover5V_resEPKN11prime_field13field_elementES3_S3_ii(q, a, b, c, e, f);
		if(cheat) { d = F(1000); x = x + d; }
		return x;
	}
	quadratic_poly __real__ZN6prover22sumcheck_phase1_updateEN11prime_field13field_elementEi(prover *, F, int);
	quadratic_poly __wrap__ZN6prover22sumcheck_phase1_updateEN11prime_field13field_elementEi(prover *q, F prev, int j) {
		quadratic_poly g = __real__ZN6prover22sumcheck_phase1_updateEN11prime_field13field_elementEi(q, prev, j);
		if(!cheat || done) return g;
		if(j == 1) r0 = prev;
		if(j < 4) { d = d * inv(F(2)); g.c = g.c + d; }
		else { F k = d * inv(F(1) - F(2) * r0); g.b = g.b + k; g.c = g.c - k * r0; done = true; } // k (x - r0), zero at the repeated challenge
		return g;
	}
}
int main(int argc, char **argv) {
	cheat = argc > 1;
	'''+INIT+'''	std::string s = "2\\n32";
	for(int i = 0; i < 32; ++i) s += " 3 " + std::to_string(i) + " " + std::to_string(i * i + 1) + " 0";
	s += "\\n4 0 0 0 31 1 1 17 2 0 2 9 25 1 3 5 30\\n";
	write("c.txt", s);
	return run() ? 0 : 3;
}
'''); two("T03-predictable")
mk("B01-inner-dummy","B01","a dummy gate that is not at the end of its layer",
 "the prover's block phase stops at the first dummy gate, so an honest proof is rejected",
 gkr("bc"),demo_dot_cpp=HDR["bc"]+PRE+T["bc"]+'''
int main() {
	'''+INIT+'''	write("c.txt", "2\\n4 3 0 3 0 3 1 5 0 3 2 7 0 3 3 11 0\\n4 0 0 0 1 2 1 0 0 1 2 2 3 1 3 2 0\\n");
	bool ok = run();
	printf("honest proof %s\\n", ok ? "accepted" : "REJECTED");
	return !ok;
}
''')
mk("B02-first-copy","B02","copies with different inputs",
 "every second copy is evaluated on the inputs of the copy before it",
 gkr("bc"),demo_dot_cpp=HDR["bc"]+PRE+T["bc"]+'''
int main() {
	'''+INIT+'''	LOG = 2;
	write("c.txt", "2\\n2 3 0 3 0 3 1 5 0\\n2 0 0 0 1 1 1 0 1\\n");
	load();
	for(int b = 0; b < 4; ++b) { v.C.blocks[b].circuit[0].gates[0].u = 10 + b; v.C.blocks[b].circuit[0].gates[1].u = 20 + 3 * b; }
	p.get_circuit(v.C);
	F *o = p.evaluate();
	int bad = 0;
	for(int b = 0; b < 4; ++b) { if(o[2 * b] != F(30 + 4 * b)) bad++; if(o[2 * b + 1] != F((10 + b) * (20 + 3 * b))) bad++; }
	printf("%d outputs wrong\\n", bad);
	return bad != 0;
}
''')
mk("B03-block-round","B03","at least four copies and a prover whose second block-phase message is inconsistent with the first",
 "the second round of the block phase is not checked: a false output claim is accepted",
 gkr("bc",["vresb","p0"]),demo_dot_cpp=HDR["bc"]+PRE+T["bc"]+'''
static bool cheat; static int calls;
extern "C" {
	F __real__ZN6prover5V_resEPKN11prime_field13field_elementES3_S3_S3_S3_iii(prover *, const F *, const F *, const F *, const F *, const F *, int, int, int);
	F __wrap__ZN6prover5V_resEPKN11prime_field13field_elementES3_S3_S3_S3_iii(prover *q, const F *a, const F *b, const F *c, const F *e, const F *f, int g, int h, int i) {
		F x = __real__ZN6prover5V_resEPKN11prime_field13field_elementES3_S3_S3_S3_iii(q, a, b, c, e, f, g, h, i);
		return cheat ? x + F(1000) : x;
	}
	cubic_poly __real__ZN6prover22sumcheck_phase0_updateEN11prime_field13field_elementEi(prover *, F, int);
	cubic_poly __wrap__ZN6prover22sumcheck_phase0_updateEN11prime_field13field_elementEi(prover *q, F prev, int j) {
		cubic_poly g = __real__ZN6prover22sumcheck_phase0_updateEN11prime_field13field_elementEi(q, prev, j);
		if(cheat && calls++ == 0) g.d = g.d + F(500);
		return g;
	}
}
int main(int argc, char **argv) {
	cheat = argc > 1; LOG = 2;
	'''+INIT+'''	write("c.txt", "2\\n4 3 0 3 0 3 1 5 0 3 2 7 0 3 3 11 0\\n4 0 0 0 1 1 1 0 2 1 2 2 3 1 3 2 0\\n");
	return run() ? 0 : 3;
}
'''); two("B03-block-round")
mk("D01-last-copy","D01","a rejection followed by an acceptance of a later copy",
 "the program announces a passing proof although one of its verifications rejected",
 gkr("trad",["verify"],"src/traditional_gkr/bclogc.cpp"),demo_dot_cpp='''#include <cstdlib>
static int n;
extern "C" bool __wrap__ZN8verifier6verifyEv(void *) { const char *s = getenv("VERDICTS"); return s[n++] == '1'; }
''')
f=R+"D01-last-copy/demo.sh"; s=open(f).read().rstrip(); s=s[:-len('"$d/demo"')]+'''printf '2\\n2 3 0 3 0 3 1 5 0\\n2 0 0 0 1 1 1 0 1\\n' > c.txt
for w in 11 01 10 00 111 011 101 110 0111 1011; do
  o=$(VERDICTS=$w "$d/demo" c.txt ${#w} 1 2>/dev/null)
  case "$w" in *0*) want=Fail;; *) want=Pass;; esac
  case "$o" in *"Verification $want"*) ;; *) echo "verdicts $w: $o"; exit 1;; esac
done
echo "reports are right"
'''
open(f,"w").write(s)
