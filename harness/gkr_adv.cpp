// The verifier under an arbitrary prover: every prover message is a fresh symbolic value, every value the
// verifier hands to the prover is recorded.
#if defined(PROG_FAST)
#include "linear_gkr/verifier_fast_track.h"
#include "linear_gkr/prover_fast_track.h"
#elif defined(PROG_PARA)
#include "linear_gkr/verifier_fast_para_track.h"
#include "linear_gkr/prover_fast_para_track.h"
#elif defined(PROG_TRAD)
#include "traditional_gkr/verifier_traditional.h"
#include "traditional_gkr/prover_clogc.h"
#else
#include "traditional_gkr/verifier_bc_clogc.h"
#include "traditional_gkr/prover_bc_clogc.h"
#endif
#include "adv_common.h"
static verifier v;
static prover p;
static int lg, lu, lv, lb;
// public state of the prover object that the verifier can read: under the adversary's control at all times
static void scramble(prover *q, const std::string &where)
{
	q->v_u = msg("field.v_u." + where); q->v_v = msg("field.v_v." + where);
#if defined(PROG_BC)
	q->beta_blk_val = msg("field.beta_blk_val." + where);
#endif
}
prover::~prover() {}
void prover::delete_self() {}
void prover::proof_init() {}
#if defined(PROG_BC)
void prover::get_circuit(const blocked_circuit &c) { C = c; }
void prover::init_array(int, int) {}
#else
void prover::get_circuit(const layered_circuit &c) { C = c; }
void prover::init_array(int) {}
#endif
fe *prover::evaluate()
{
	symx::note("call evaluate");
#if defined(PROG_BC)
	int tot = C.total_blocks << C.blocks[0].circuit[C.blocks[0].total_depth - 1].bit_length;
#else
	int tot = 1 << C.circuit[C.total_depth - 1].bit_length;
#endif
	fe *r = new fe[tot];
	for (int i = 0; i < tot; ++i) r[i] = msg("out." + S(i));
	scramble(this, "evaluate");
	return r;
}
#if defined(PROG_BC)
fe prover::V_res(const fe *o0, const fe *r0, const fe *ob, const fe *rb, const fe *raw, int n0, int nb, int)
{
	symx::note("call V_res"); args("r0", r0, n0); args("rb", rb, nb);
	return msg("vres");
}
void prover::sumcheck_init(int layer, int nb, int ng, int nu, int nv, const fe &a, const fe &b, const fe *rb, const fe *r0, const fe *r1, fe *ob, fe *o0, fe *o1)
{
	lg = ng; lu = nu; lv = nv; lb = nb;
	symx::note("call sumcheck_init " + S(layer) + " " + S(ng) + " " + S(nu) + " " + S(nv) + " " + S(nb));
	arg("alpha", a); arg("beta", b); args("rb", rb, nb); args("r0", r0, ng); args("r1", r1, ng); args("ob", ob, nb); args("o0", o0, ng); args("o1", o1, ng);
}
void prover::sumcheck_phase0_init() { symx::note("call phase0_init"); scramble(this, "p0i"); }
void prover::sumcheck_phase1_init(fe prev) { symx::note("call phase1_init"); arg("prev", prev); scramble(this, "p1i"); }
void prover::sumcheck_phase2_init(fe prev) { symx::note("call phase2_init"); arg("prev", prev); scramble(this, "p2i"); }
cubic_poly prover::sumcheck_phase0_update(fe prev, int j)
{
	symx::note("call phase0_update " + S(j)); arg("prev", prev);
	fe a = msg("a"), b = msg("b"), c = msg("c"), d = msg("d");
	return cubic_poly(a, b, c, d);
}
#else
fe prover::V_res(const fe *o0, const fe *r0, const fe *raw, int n0, int)
{
	symx::note("call V_res"); args("r0", r0, n0);
	return msg("vres");
}
void prover::sumcheck_init(int layer, int ng, int nu, int nv, const fe &a, const fe &b, const fe *r0, const fe *r1, fe *o0, fe *o1)
{
	lg = ng; lu = nu; lv = nv;
	symx::note("call sumcheck_init " + S(layer) + " " + S(ng) + " " + S(nu) + " " + S(nv) + " 0");
	arg("alpha", a); arg("beta", b); args("r0", r0, ng); args("r1", r1, ng); args("o0", o0, ng); args("o1", o1, ng);
}
void prover::sumcheck_phase1_init() { symx::note("call phase1_init"); scramble(this, "p1i"); }
void prover::sumcheck_phase2_init(fe prev, const fe *ru, const fe *ou)
{
	symx::note("call phase2_init"); arg("prev", prev); args("ru", ru, lu); args("ou", ou, lu); scramble(this, "p2i");
}
#endif
quadratic_poly prover::sumcheck_phase1_update(fe prev, int j)
{
	symx::note("call phase1_update " + S(j)); arg("prev", prev);
	fe a = msg("a"), b = msg("b"), c = msg("c"); scramble(this, "p1");
	return quadratic_poly(a, b, c);
}
quadratic_poly prover::sumcheck_phase2_update(fe prev, int j)
{
	symx::note("call phase2_update " + S(j)); arg("prev", prev);
	fe a = msg("a"), b = msg("b"), c = msg("c"); scramble(this, "p2");
	return quadratic_poly(a, b, c);
}
std::pair<fe, fe> prover::sumcheck_finalize(fe prev)
{
	symx::note("call finalize"); arg("prev", prev);
	fe a = msg("vu"), b = msg("vv"); scramble(this, "fin");
	return std::make_pair(a, b);
}
int main(int argc, char **argv)
{
	prime_field::init("16798108731015832284940804142231733909759579603404752749028378864165570215949", 10);
	p.total_time = 0;
#if defined(PROG_FAST) || defined(PROG_PARA)
	v.get_prover(&p);
	v.read_circuit(argv[1]);
#elif defined(PROG_TRAD)
	v.get_prover(&p);
	FILE *f = fopen(argv[1], "r"); v.read_circuit_from_FILE(f); fclose(f);
#else
	int n = atoi(argv[3]), l = atoi(argv[4]);
	v.set_blocks(n, l);
	v.get_prover(&p);
	v.read_circuit(argv[1], n);
	if (argc > 5)
	{
		FILE *f = fopen(argv[5], "r");
		for (int b = 0; b < n; ++b)
			for (int k = 0; k < (1 << v.C.blocks[b].circuit[0].bit_length); ++k)
				if (v.C.blocks[b].circuit[0].gates[k].ty == 3) { int x = 0; if (fscanf(f, "%d", &x) != 1) break; v.C.blocks[b].circuit[0].gates[k].u = x; }
		fclose(f);
	}
#endif
	p.get_circuit(v.C);
	bool ok = v.verify();
	symx::finish(ok ? "accept" : "reject");
	return 0;
}
