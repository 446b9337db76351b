// Honest run of one of the three programs on the circuit file argv[1].
// -DPROG_FAST | -DPROG_TRAD | -DPROG_BC.   argv[2]: verify | eval    argv[3], argv[4]: copies, log copies (BC)
#if defined(PROG_FAST)
#include "linear_gkr/verifier_fast_track.h"
#include "linear_gkr/prover_fast_track.h"
#elif defined(PROG_PARA)
#include "linear_gkr/verifier_fast_para_track.h"
#include "linear_gkr/prover_fast_para_track.h"
#elif defined(PROG_TRAD)
#include "traditional_gkr/verifier_traditional.h"
#include "traditional_gkr/prover_clogc.h"
#else
#include "traditional_gkr/verifier_bc_clogc.h"
#include "traditional_gkr/prover_bc_clogc.h"
#endif
#include "symx_api.h"
#include <cstdlib>
#include <cstdio>
static verifier v;
static prover p;
static const int MAGIC_IN = 1900000000;
int main(int argc, char **argv)
{
	prime_field::init("16798108731015832284940804142231733909759579603404752749028378864165570215949", 10);
	std::string mode = argv[2];
	p.total_time = 0;
#if defined(PROG_FAST) || defined(PROG_PARA)
	v.get_prover(&p);
	v.read_circuit(argv[1]);
#elif defined(PROG_TRAD)
	v.get_prover(&p);
	FILE *f = fopen(argv[1], "r"); v.read_circuit_from_FILE(f); fclose(f);
#else
	int n = atoi(argv[3]), l = atoi(argv[4]);
	v.set_blocks(n, l);
	v.get_prover(&p);
	v.read_circuit(argv[1], n);
	// give every block its own inputs: block b, input k is listed in the file argv[5] (one integer per input)
	if (argc > 5)
	{
		FILE *f = fopen(argv[5], "r");
		for (int b = 0; b < n; ++b)
			for (int k = 0; k < (1 << v.C.blocks[b].circuit[0].bit_length); ++k)
				if (v.C.blocks[b].circuit[0].gates[k].ty == 3) { int x = 0; if (fscanf(f, "%d", &x) != 1) break; v.C.blocks[b].circuit[0].gates[k].u = x; }
		fclose(f);
	}
#endif
	p.get_circuit(v.C);
	if (mode == "verify")
	{
		bool ok = v.verify();
		symx::finish(ok ? "accept" : "reject");
	}
	else
	{
		prime_field::field_element *r = p.evaluate();
#if defined(PROG_BC)
		int tot = n << v.C.blocks[0].circuit[v.C.blocks[0].total_depth - 1].bit_length;
#else
		int tot = 1 << v.C.circuit[v.C.total_depth - 1].bit_length;
#endif
		for (int i = 0; i < tot; ++i) symx::out("out" + std::to_string(i), r[i]);
		symx::finish("done");
	}
	return 0;
}
