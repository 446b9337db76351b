// The zero-knowledge verifier against prover messages of any value: every value a prover method returns, and every scalar of the
// prover object the verifier could read, is a symbol of its own.  What is recorded, drawn and handed to the prover is logged in order.
// argv: circuit meta
#include "linear_gkr/zk_verifier.h"
#include "linear_gkr/zk_prover.h"
#include "symx_api.h"
#include <cstdlib>
#include <cstdio>
#include <map>
using prime_field::field_element;
static zk_verifier v;
static zk_prover p;
static int ev;
static std::map<std::string, int> cnt;
static bool native_log = getenv("FS_NATIVE");
static std::string E(const char *kind, const std::string &what) { char b[32]; snprintf(b, sizeof b, "E%06d.", ev++); return b + std::string(kind) + "." + what; }
static field_element fe(const mpz_class &x) { field_element r; auto s = zk::red(x).get_str(); r.value = prime_field::u512b(s.c_str(), s.length(), 10); return r; }
#ifdef ZK_HIDE      // the honest prover's messages as they are
static void msg(field_element &x, const std::string &n) { symx::out(E("msg", n), x); }
static void msg(mpz_class &x, const std::string &n) { symx::out(E("msg", n), fe(x)); }
#else
static field_element D(const std::string &n) { return symx::sym("d_" + n + "_" + std::to_string(cnt[n]++)); }
static void msg(field_element &x, const std::string &n) { x = D(n); symx::out(E("msg", n), x); }
static void msg(mpz_class &x, const std::string &n) { field_element t = D(n); symx::out(E("msg", n), t); x = t.to_gmp_class(); }
#endif
static void msg(bn::Ec1 &x, const std::string &n) { msg(x.e, n); }
static void msg(std::vector<bn::Ec1> &x, const std::string &n) { for (auto &y : x) msg(y, n); }
static void arg(const field_element &x) { symx::out(E("arg", ""), x); }
static void arg(const field_element *x, int n) { for (int i = 0; i < n; ++i) arg(x[i]); }
static void arg(const std::vector<mpz_class> &x) { for (auto &y : x) arg(fe(y)); }
static void state()
{
#ifdef ZK_HIDE
	return;
#endif
	field_element *f[] = {&p.v_u, &p.v_v, &p.maskpoly_sumc, &p.Iuv, &p.preZu, &p.preZv, &p.Zu, &p.Zv, &p.prepreu1, &p.preprev1, &p.preu1, &p.prev1, &p.sumRc.a, &p.sumRc.b, &p.sumRc.c};
	const char *n[] = {"v_u", "v_v", "maskpoly_sumc", "Iuv", "preZu", "preZv", "Zu", "Zv", "prepreu1", "preprev1", "preu1", "prev1", "sumRc.a", "sumRc.b", "sumRc.c"};
	for (int k = 0; k < 15; ++k) msg(*f[k], std::string("field-") + n[k]);
}
static void mask_sum()
{
#ifdef ZK_HIDE
	msg(p.maskpoly_sumc, "mask-sum");
#endif
}
static void seen() { arg(p.rho); arg(p.alpha); arg(p.beta); }
typedef std::vector<bn::Ec1> VE; typedef std::pair<VE, VE> PV; typedef std::pair<field_element, field_element> PF;
#ifdef SYMBOLIC_BUILD
#define MV "St6vectorI9mpz_classSaIS1_EERS1_"
#define MVZ "St6vectorI9mpz_classSaIS1_EERS1_S1_"
#else
#define MV "St6vectorI10__gmp_exprIA1_12__mpz_structS3_ESaIS4_EERS4_"
#define MVZ "St6vectorI10__gmp_exprIA1_12__mpz_structS3_ESaIS4_EERS4_S4_"
#endif
#define W(ret, nm, args, sym) ret real_##nm args asm("__real_" sym); ret wrap_##nm args asm("__wrap_" sym); ret wrap_##nm args
#define F "N11prime_field13field_elementE"
static void poly2(quadratic_poly &t, const char *n) { msg(t.a, n); msg(t.b, n); msg(t.c, n); }
static void poly5(quintuple_poly &t, const char *n) { msg(t.a, n); msg(t.b, n); msg(t.c, n); msg(t.d, n); msg(t.e, n); msg(t.f, n); }
#define ROUND2(nm, len) W(quadratic_poly, nm, (zk_prover *q, field_element r, int k), "_ZN9zk_prover" #len #nm "E" F "i") { \
	seen(); arg(r); quadratic_poly t = real_##nm(q, r, k); poly2(t, #nm); state(); return t; }
#define ROUND5(nm, len) W(quintuple_poly, nm, (zk_prover *q, field_element r, int k), "_ZN9zk_prover" #len #nm "E" F "i") { \
	seen(); arg(r); quintuple_poly t = real_##nm(q, r, k); poly5(t, #nm); state(); return t; }
ROUND2(sumcheck_phase1_update, 22)
ROUND2(sumcheck_phase2_update, 22)
ROUND5(sumcheck_phase1_updatelastbit, 29)
ROUND5(sumcheck_phase2_updatelastbit, 29)
W(quadratic_poly, finalround, (zk_prover *q, field_element r, int k, field_element g), "_ZN9zk_prover19sumcheck_finalroundE" F "iS1_")
{ seen(); arg(r); quadratic_poly t = real_finalround(q, r, k, g); poly2(t, "finalround"); state(); return t; }
W(PF, finalize, (zk_prover *q, field_element r), "_ZN9zk_prover17sumcheck_finalizeE" F)
{ seen(); arg(r); PF t = real_finalize(q, r); msg(t.first, "claim-u"); msg(t.second, "claim-v"); state(); return t; }
W(void, phase2_init, (zk_prover *q, field_element r, const field_element *a, const field_element *b), "_ZN9zk_prover20sumcheck_phase2_initE" F "PKS1_S3_")
{ seen(); arg(r); arg(a, q->length_u); real_phase2_init(q, r, a, b); state(); }
W(void, after_rho, (zk_prover *q, int a, int b), "_ZN9zk_prover27generate_maskpoly_after_rhoEii")
{ seen(); real_after_rho(q, a, b); state(); }
W(field_element *, evaluate, (zk_prover *q), "_ZN9zk_prover8evaluateEv")
{
	field_element *r = real_evaluate(q);
	int n = 1 << q->C.circuit[q->C.total_depth - 1].bit_length;
	field_element *t = new field_element[n];
	for (int i = 0; i < n; ++i) { t[i] = r[i]; msg(t[i], "output"); }
	return t;
}
W(field_element, V_res, (zk_prover *q, const field_element *a, const field_element *b, const field_element *c, int n, int m), "_ZN9zk_prover5V_resEPKN11prime_field13field_elementES3_S3_ii")
{ arg(b, n); return real_V_res(q, a, b, c, n, m); }
W(PV, commit_input, (zk_prover *q, int n, double &kt), "_ZN9zk_prover17keygen_and_commitEiRd")
{ PV r = real_commit_input(q, n, kt); msg(r.first, "commit-input"); msg(r.second, "commit-input-mask"); state(); return r; }
W(VE, init, (zk_prover *q, int l, int g, int u, int w, const field_element &a, const field_element &b, const field_element *r0, const field_element *r1, field_element *o0, field_element *o1),
  "_ZN9zk_prover13sumcheck_initEiiiiRKN11prime_field13field_elementES3_PS2_S4_PS1_S5_")
{ arg(a); arg(b); arg(r0, g); arg(r1, g); VE r = real_init(q, l, g, u, w, a, b, r0, r1, o0, o1); msg(r, "commit-R"); state(); return r; }
W(VE, pre_rho, (zk_prover *q, int a, int b), "_ZN9zk_prover25generate_maskpoly_pre_rhoEii")
{ VE r = real_pre_rho(q, a, b); msg(r, "commit-mask"); mask_sum(); state(); return r; }
static void opening(PV &r, mpz_class &ans, const char *n) { msg(r.first, n); msg(r.second, n); msg(ans, std::string(n) + "-value"); }
W(PV, prove_R, (zk_prover *q, std::vector<mpz_class> R, mpz_class &ans), "_ZN9zk_prover7prove_RE" MV)
{ seen(); arg(R); PV r = real_prove_R(q, R, ans); opening(r, ans, "open-R"); state(); return r; }
W(PV, prove_mask, (zk_prover *q, std::vector<mpz_class> R, mpz_class &ans), "_ZN9zk_prover10prove_maskE" MV)
{ seen(); arg(R); PV r = real_prove_mask(q, R, ans); opening(r, ans, "open-mask"); state(); return r; }
W(PV, prove_input, (zk_prover *q, std::vector<mpz_class> R, mpz_class &ans, mpz_class Z), "_ZN9zk_prover11prove_inputE" MVZ)
{ seen(); arg(R); PV r = real_prove_input(q, R, ans, Z); opening(r, ans, "open-input"); state(); return r; }
#ifndef ZK_HIDE
// challenges
static int ndraw;
#ifndef SYMBOLIC_BUILD
namespace fs { std::vector<field_element> challenge(const std::vector<std::pair<field_element, bool> > &msg, int n); }
#endif
field_element *fs_random(proof_transcript *t, int n) asm("_ZN16proof_transcript6randomEi");
field_element *fs_random(proof_transcript *t, int n)
{
	int d = ndraw++;
	field_element *r = new field_element[n];
	std::vector<std::pair<field_element, bool> > c;
	for (auto &x : t->msg) c.push_back(std::make_pair(x.indicator == container::curve_ele_indicator ? fe(x.curve_ele.e) : x.fld_ele, x.indicator == container::randomness_indicator));
#ifdef SYMBOLIC_BUILD
	for (auto &x : c) symx::out(E("cont", std::to_string(d)), x.first);
	for (int k = 0; k < n; ++k) r[k] = symx::sym("t" + std::to_string(d) + "_" + std::to_string(k));
#else
	auto w = fs::challenge(c, n);
	for (int k = 0; k < n; ++k) r[k] = w[k];
#endif
	for (int k = 0; k < n; ++k)
	{
		symx::out(E("draw", std::to_string(d) + "_" + std::to_string(k)), r[k]);
		t->msg.push_back(container(r[k], container::randomness_indicator));
	}
	return r;
}
#ifndef SYMBOLIC_BUILD
// native replay: comparisons of field elements hold
W(bool, ne, (const field_element *a, const field_element &b), "_ZNK11prime_field13field_elementneERKS0_") { return false; }
W(bool, eq, (const field_element *a, const field_element &b), "_ZNK11prime_field13field_elementeqERKS0_") { return true; }
#endif
#else       // keys are told from blindings
extern bool zk_key;
#define KEY(ns, len) W(void, ns##_key, (int n), "_ZN" #len #ns "6KeyGenEi") { zk_key = true; real_##ns##_key(n); zk_key = false; }
KEY(vpdR, 4)
KEY(vpd_test, 8)
KEY(input_vpd, 9)
#endif
int main(int argc, char **argv)
{
	prime_field::init("16798108731015832284940804142231733909759579603404752749028378864165570215949", 10);
	p.total_time = 0;
	v.get_prover(&p);
	v.read_circuit(argv[1], argv[2]);
	p.get_circuit(v.C);
	bool ok = v.verify("result.txt");
	symx::finish(ok ? "accept" : "reject");
	return 0;
}
