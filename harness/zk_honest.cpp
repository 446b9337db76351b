// Honest run of the zero-knowledge program on the circuit argv[1], meta file argv[2]; with a third argument only its evaluation.
#include "linear_gkr/zk_verifier.h"
#include "linear_gkr/zk_prover.h"
#include "symx_api.h"
#include <cstdlib>
#include <cstdio>
static zk_verifier v;
static zk_prover p;
int main(int argc, char **argv)
{
	prime_field::init("16798108731015832284940804142231733909759579603404752749028378864165570215949", 10);
	p.total_time = 0;
	v.get_prover(&p);
	v.read_circuit(argv[1], argv[2]);
	p.get_circuit(v.C);
	if (argc > 3)
	{
		p.proof_init();
		prime_field::field_element *r = p.evaluate();
		for (int i = 0; i < (1 << v.C.circuit[v.C.total_depth - 1].bit_length); ++i) symx::out("out" + std::to_string(i), r[i]);
		symx::finish("done");
	}
	bool ok = v.verify("result.txt");
	symx::finish(ok ? "accept" : "reject");
	return 0;
}
