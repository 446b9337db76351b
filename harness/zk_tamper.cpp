// The honest zero-knowledge prover with one of its messages altered on the way to the verifier.
// argv: circuit meta site index item.  Every altered component gets its own symbol d0, d1, ... added.
#include "linear_gkr/zk_verifier.h"
#include "linear_gkr/zk_prover.h"
#include "symx_api.h"
#include <cstdlib>
#include <cstdio>
#include <map>
using prime_field::field_element;
namespace vpdR { extern bn::Ec1 g1, g1a; }
namespace vpd_test { extern bn::Ec1 g1, g1a; }
namespace input_vpd { extern bn::Ec1 g1, g1a; }
static zk_verifier v;
static zk_prover p;
static std::string site; static int idx, item;
static std::map<std::string, int> cnt;
static bool list_mode;
static std::map<std::string, int> items;
static bool hit(const char *s, int nitems)
{
	int k = cnt[s]++;
	items[s] = nitems;
	if (list_mode) symx::note(std::string("SITE ") + s + " " + std::to_string(k) + " " + std::to_string(nitems));
	return !list_mode && site == s && k == idx;
}
static field_element D(int k) { return symx::sym("d" + std::to_string(k)); }
static void bump(field_element &x, int k) { x = x + D(k); }
static mpz_class DM(int k) { field_element t = D(k); return t.to_gmp_class(); }
static void bump(mpz_class &x, int k) { x = zk::red(x + DM(k)); }
static void bump(bn::Ec1 &x, int k) { x.e = zk::red(x.e + DM(k)); }
// element and its companion altered consistently, with what anybody can compute from the public key
static void pairbump(bn::Ec1 &x, bn::Ec1 &xa, const bn::Ec1 &g, const bn::Ec1 &ga, int k)
{
	x += g * DM(k); xa += ga * DM(k);
}
// item < n: element `item`; n <= item < 2n: its companion; 2n <= item < 3n: both; item == 3n: the claimed value
template<class V> static void open(V &w, mpz_class &ans, const bn::Ec1 &g, const bn::Ec1 &ga)
{
	int n = w.first.size();
	if (item < n) bump(w.first[item], 0);
	else if (item < 2 * n) bump(w.second[item - n], 0);
	else if (item < 3 * n) pairbump(w.first[item - 2 * n], w.second[item - 2 * n], g, ga, 0);
	else bump(ans, 0);
}
typedef std::vector<bn::Ec1> VE; typedef std::pair<VE, VE> PV;
static void commitment(VE &r, const bn::Ec1 &g, const bn::Ec1 &ga) { if (item < 2) bump(r[item], 0); else pairbump(r[0], r[1], g, ga, 0); }
#ifdef SYMBOLIC_BUILD
#define MV "St6vectorI9mpz_classSaIS1_EERS1_"
#define MVZ "St6vectorI9mpz_classSaIS1_EERS1_S1_"
#else
#define MV "St6vectorI10__gmp_exprIA1_12__mpz_structS3_ESaIS4_EERS4_"
#define MVZ "St6vectorI10__gmp_exprIA1_12__mpz_structS3_ESaIS4_EERS4_S4_"
#endif
#define W(ret, nm, args, sym) ret real_##nm args asm("__real_" sym); ret wrap_##nm args asm("__wrap_" sym); ret wrap_##nm args
#define F "N11prime_field13field_elementE"
#define ROUND2(nm, len) W(quadratic_poly, nm, (zk_prover *q, field_element r, int k), "_ZN9zk_prover" #len #nm "E" F "i") { \
	quadratic_poly t = real_##nm(q, r, k); if (hit(#nm, 1)) { bump(t.a, 0); bump(t.b, 1); bump(t.c, 2); } return t; }
#define ROUND5(nm, len) W(quintuple_poly, nm, (zk_prover *q, field_element r, int k), "_ZN9zk_prover" #len #nm "E" F "i") { \
	quintuple_poly t = real_##nm(q, r, k); if (hit(#nm, 1)) { bump(t.a, 0); bump(t.b, 1); bump(t.c, 2); bump(t.d, 3); bump(t.e, 4); bump(t.f, 5); } return t; }
ROUND2(sumcheck_phase1_update, 22)
ROUND2(sumcheck_phase2_update, 22)
ROUND5(sumcheck_phase1_updatelastbit, 29)
ROUND5(sumcheck_phase2_updatelastbit, 29)
W(quadratic_poly, finalround, (zk_prover *q, field_element r, int k, field_element g), "_ZN9zk_prover19sumcheck_finalroundE" F "iS1_")
{
	quadratic_poly t = real_finalround(q, r, k, g);
	if (hit("finalround", 1)) { bump(t.a, 0); bump(t.b, 1); bump(t.c, 2); }
	return t;
}
typedef std::pair<field_element, field_element> PF;
W(PF, finalize, (zk_prover *q, field_element r), "_ZN9zk_prover17sumcheck_finalizeE" F)
{
	PF t = real_finalize(q, r);
	if (hit("claim-v", 1)) bump(t.second, 0);
	return t;
}
W(void, phase2_init, (zk_prover *q, field_element r, const field_element *a, const field_element *b), "_ZN9zk_prover20sumcheck_phase2_initE" F "PKS1_S3_")
{
	real_phase2_init(q, r, a, b);
	if (hit("claim-u", 1)) bump(q->v_u, 0);
}
W(void, after_rho, (zk_prover *q, int a, int b), "_ZN9zk_prover27generate_maskpoly_after_rhoEii")
{
	real_after_rho(q, a, b);
	if (hit("mask-sum", 1)) bump(q->maskpoly_sumc, 0);
}
W(field_element *, evaluate, (zk_prover *q), "_ZN9zk_prover8evaluateEv")
{
	field_element *r = real_evaluate(q);
	int n = 1 << q->C.circuit[q->C.total_depth - 1].bit_length;
	field_element *t = new field_element[n];
	for (int i = 0; i < n; ++i) t[i] = r[i];
	if (hit("outputs", 1)) for (int i = 0; i < n; ++i) bump(t[i], i);
	return t;
}
W(PV, commit_input, (zk_prover *q, int n, double &kt), "_ZN9zk_prover17keygen_and_commitEiRd")
{
	PV r = real_commit_input(q, n, kt);
	if (hit("commit-input", 3)) commitment(r.first, input_vpd::g1, input_vpd::g1a);
	if (hit("commit-input-mask", 3)) commitment(r.second, input_vpd::g1, input_vpd::g1a);
	return r;
}
W(VE, init, (zk_prover *q, int l, int g, int u, int w, const field_element &a, const field_element &b, const field_element *r0, const field_element *r1, field_element *o0, field_element *o1),
  "_ZN9zk_prover13sumcheck_initEiiiiRKN11prime_field13field_elementES3_PS2_S4_PS1_S5_")
{
	VE r = real_init(q, l, g, u, w, a, b, r0, r1, o0, o1);
	if (hit("commit-R", 3)) commitment(r, vpdR::g1, vpdR::g1a);
	return r;
}
W(VE, pre_rho, (zk_prover *q, int a, int b), "_ZN9zk_prover25generate_maskpoly_pre_rhoEii")
{
	VE r = real_pre_rho(q, a, b);
	if (hit("commit-mask", 3)) commitment(r, vpd_test::g1, vpd_test::g1a);
	return r;
}
W(PV, prove_R, (zk_prover *q, std::vector<mpz_class> R, mpz_class &ans), "_ZN9zk_prover7prove_RE" MV)
{
	PV r = real_prove_R(q, R, ans);
	if (hit("open-R", 3 * r.first.size() + 1)) open(r, ans, vpdR::g1, vpdR::g1a);
	return r;
}
W(PV, prove_mask, (zk_prover *q, std::vector<mpz_class> R, mpz_class &ans), "_ZN9zk_prover10prove_maskE" MV)
{
	PV r = real_prove_mask(q, R, ans);
	if (hit("open-mask", 3 * r.first.size() + 1)) open(r, ans, vpd_test::g1, vpd_test::g1a);
	return r;
}
W(PV, prove_input, (zk_prover *q, std::vector<mpz_class> R, mpz_class &ans, mpz_class Z), "_ZN9zk_prover11prove_inputE" MVZ)
{
	PV r = real_prove_input(q, R, ans, Z);
	if (hit("open-input", 3 * r.first.size() + 1)) open(r, ans, input_vpd::g1, input_vpd::g1a);
	return r;
}
int main(int argc, char **argv)
{
	prime_field::init("16798108731015832284940804142231733909759579603404752749028378864165570215949", 10);
	site = argv[3]; idx = atoi(argv[4]); item = atoi(argv[5]);
	list_mode = site == "list";
	p.total_time = 0;
	v.get_prover(&p);
	v.read_circuit(argv[1], argv[2]);
	p.get_circuit(v.C);
	bool ok = v.verify("result.txt");
	symx::finish(ok ? "accept" : "reject");
	return 0;
}
