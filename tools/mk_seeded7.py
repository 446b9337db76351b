src=open("/verif/tools/mk_seeded4.py").read()
i=src.index('go("Z01-bit'); exec(src[:i])
PS="src/linear_gkr/verifier_fast_para_track.cpp src/linear_gkr/prover_fast_para_track.cpp src/linear_gkr/polynomial.cpp src/linear_gkr/prime_field.cpp"
def pb(extra=""):
    return 'clang++ -std=c++11 -O1 -w -I include "$here/demo.cpp" %s -o "$d/tool" -lgmpxx -lgmp -lpthread %s || exit 2\ncd "$d" || exit 2\n' % (PS, extra)
def gop(i, prop, needs, breaks, sh, pat, **files):
    mk(i, prop, needs, breaks, sh, **files)
    subprocess.check_call(["python3","/verif/tools/mut.py","patch","/verif/tools/para_muts.py",pat,"/verif/seeded/"+i+"/patch.diff"])
PR='''#define private public
#include "linear_gkr/verifier_fast_para_track.h"
#include "linear_gkr/prover_fast_para_track.h"
#include "linear_gkr/prime_field.h"
#include <cstdio>
#include <cstdlib>
#include <thread>
#include <vector>
#include <cstring>
verifier v; prover p;
#define FE prime_field::field_element
static void setup()
{
'''+INIT+'''	p.total_time = 0; v.get_prover(&p); v.read_circuit("test_circuit.txt"); p.get_circuit(v.C);
}
'''
def cir(sizes, gates=(0,1)):
    return '''python3 - <<'PY'
S = %r; G = %r
L = [[(3, 7 * k + 2, 0) for k in range(S[0])]]
for m, n in zip(S, S[1:]): L.append([(G[k %% len(G)], (5 * k + 1) %% m, (3 * k) %% m) for k in range(n)])
open("test_circuit.txt", "w").write("%%d\\n" %% len(L) + "".join("%%d %%s\\n" %% (len(l), " ".join("%%d %%d %%d %%d" %% (t, g, u, v) for g, (t, u, v) in enumerate(l))) for l in L))
PY
''' % (sizes, gates)
gop("M01-wide-table","M01","a layer over at least 64 gates",
 "the parallel prover builds the table of weights over u from the wrong coordinates once the half table has more than two of them, so honest proofs are rejected",
 pb()+cir([64,16,4])+'"$d/tool" >out.txt 2>err.txt\n', "pa-first-half",
 demo_dot_cpp=PR+'int main() { setup(); return v.verify() ? 0 : 1; }\n')
gop("M03-third-round","M03","a wrong output whose error is carried through two rounds and dropped in the third, over a layer of at least 8 gates",
 "the parallel verifier does not compare the third round polynomial of the first phase with the running claim, so a wrong output is accepted",
 pb("-Wl,--wrap=_ZN6prover22sumcheck_phase1_updateEN11prime_field13field_elementEi -Wl,--wrap=_ZN6prover5V_resEPKN11prime_field13field_elementES3_S3_ii")+cir([8,4])+'"$d/tool" >out.txt 2>err.txt\n', "pa-third-round",
 demo_dot_cpp=PR+'''quadratic_poly rU(prover *, FE, int) asm("__real__ZN6prover22sumcheck_phase1_updateEN11prime_field13field_elementEi");
quadratic_poly wU(prover *, FE, int) asm("__wrap__ZN6prover22sumcheck_phase1_updateEN11prime_field13field_elementEi");
FE rV(prover *, const FE *, const FE *, const FE *, int, int) asm("__real__ZN6prover5V_resEPKN11prime_field13field_elementES3_S3_ii");
FE wV(prover *, const FE *, const FE *, const FE *, int, int) asm("__wrap__ZN6prover5V_resEPKN11prime_field13field_elementES3_S3_ii");
static int lie = 0;
quadratic_poly wU(prover *q, FE r, int b)
{
	quadratic_poly t = rU(q, r, b);
	if(lie && b < 2) t.c = t.c + q->alpha * FE(b ? 1 : 2);
	return t;
}
FE wV(prover *q, const FE *a, const FE *b, const FE *c, int n, int m) { FE t = rV(q, a, b, c, n, m); return lie ? t + FE(4) : t; }
int main(int argc, char **argv)
{
	lie = 1;
	setup();
	return v.verify() ? 1 : 0;      // the claimed output is wrong by 4
}
''')
SCHED='''// threads run one after another, in the order given: any order is a schedule the standard allows
static const char *order = "0123";
struct Th { std::thread::_State *st; bool run, joined; };
static std::vector<Th> region; static int left;
static void go(int k) { if(!region[k].run) { region[k].run = true; std::thread::_State *s = region[k].st; s->_M_run(); } }
void std::thread::_M_start_thread(_State_ptr s, void (*)())
{
	Th t = {s.release(), false, false}; region.push_back(t); ++left;
	unsigned long id = region.size(); memcpy((void *)&_M_id, &id, sizeof id);
}
void std::thread::join()
{
	unsigned long id; memcpy(&id, (void *)&_M_id, sizeof id);
	int k = id - 1;
	if(*order == 'L') { if(k == 0) for(size_t j = 1; j < region.size(); ++j) go(j); go(k); }
	else if(!region[k].run) { for(const char *q = order; *q; ++q) if(*q - '0' < (int)region.size()) go(*q - '0'); for(size_t j = 0; j < region.size(); ++j) go(j); }
	region[k].joined = true; id = 0; memcpy((void *)&_M_id, &id, sizeof id);
	if(!--left) { for(auto &t : region) delete t.st; region.clear(); }
}
int main(int argc, char **argv)
{
	order = argv[1];
	setup();
	return v.verify() ? 0 : 1;
}
'''
ORD='for o in 0123 3210 2031 1302 L; do "$d/tool" $o >out.txt 2>err.txt || { echo "honest proof rejected when the threads run in the order $o"; exit 1; }; done\n'
gop("M04-shared-reset","M04","a schedule where thread 1 of a round adds its part before thread 0 starts",
 "thread 0 also resets the sum that thread 1 is adding to, so the round polynomial depends on the schedule",
 pb()+cir([16,8])+ORD, "pa-rets-shared", demo_dot_cpp=PR+SCHED)
gop("M04-join-late","M04","a schedule where the first initialising thread is slower than the threads of the next step",
 "the threads that go through the gates start before the first initialising thread has ended, so they can read weights not yet written and have their sums cleared",
 pb()+cir([16,8,8])+ORD, "pa-join-late", demo_dot_cpp=PR+SCHED)
