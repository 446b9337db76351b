// The zero-knowledge command-line program with its verifier's verdict replaced by an arbitrary one.
#include "linear_gkr/zk_verifier.h"
#include "linear_gkr/zk_prover.h"
#include "symx_api.h"
#include <cstdlib>
#include <cstdio>
#include <cstring>
static int n_verify = 0;
static bool all_ok = true, files_ok = true, linked = false;
static zk_prover *given = 0;
bool zk_verifier::verify(const char *proof)
{
	prime_field::field_element one = prime_field::field_element(1);
	bool ok = symx::sym("verdict" + std::to_string(n_verify++)) == one;
	all_ok = all_ok && ok;
	files_ok = files_ok && !strcmp(proof, "proof.bin") && linked && C.total_depth == 7;
	return ok;
}
void zk_verifier::get_prover(zk_prover *q) { given = q; }
void zk_verifier::read_circuit(const char *c, const char *m)
{
	files_ok = files_ok && !strcmp(c, "circuit.txt") && !strcmp(m, "meta.txt");
	C.total_depth = 7;
}
void zk_verifier::delete_self() {}
void zk_prover::get_circuit(const layered_circuit &c) { linked = given == this && c.total_depth == 7; }
zk_prover::~zk_prover() {}
static void at_end()
{
	fflush(stdout);
	FILE *f = fopen("captured.txt", "r");
	static char b[1 << 16]; size_t n = f ? fread(b, 1, sizeof b - 1, f) : 0; b[n] = 0;
	bool pass = strstr(b, "Pass") != 0, fail = strstr(b, "Fail") != 0;
	symx::finish(std::string(pass ? fail ? "both" : "pass" : fail ? "fail" : "neither") + "/" + (all_ok ? "accepted" : "rejected") + "/" + std::to_string(n_verify) + (files_ok ? "" : "/wrong-files"));
}
static struct Boot2 { Boot2() { if (!freopen("captured.txt", "w", stdout)) abort(); atexit(at_end); } } boot2;
