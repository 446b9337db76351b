// The command-line program with its verifier's verdict replaced by an arbitrary one; its standard output is recorded.
#if defined(PROG_FAST)
#include "linear_gkr/verifier_fast_track.h"
#include "linear_gkr/prover_fast_track.h"
#elif defined(PROG_PARA)
#include "linear_gkr/verifier_fast_para_track.h"
#include "linear_gkr/prover_fast_para_track.h"
#elif defined(PROG_TRAD)
#include "traditional_gkr/verifier_traditional.h"
#include "traditional_gkr/prover_clogc.h"
#else
#include "traditional_gkr/verifier_bc_clogc.h"
#include "traditional_gkr/prover_bc_clogc.h"
#endif
#include "symx_api.h"
#include <cstdlib>
#include <cstdio>
#include <cstring>
static int n_verify = 0;
static bool all_ok = true;
bool verifier::verify()
{
	prime_field::field_element one = prime_field::field_element(1);
	bool ok = symx::sym("verdict" + std::to_string(n_verify++)) == one;
	all_ok = all_ok && ok;
	return ok;
}
static void at_end()
{
	fflush(stdout);
	FILE *f = fopen("captured.txt", "r");
	static char b[1 << 16]; size_t n = f ? fread(b, 1, sizeof b - 1, f) : 0; b[n] = 0;
	bool pass = strstr(b, "Pass") != 0, fail = strstr(b, "Fail") != 0;
	symx::finish(std::string(pass ? fail ? "both" : "pass" : fail ? "fail" : "neither") + "/" + (all_ok ? "accepted" : "rejected") + "/" + std::to_string(n_verify));
}
static struct Boot2 { Boot2() { if (!freopen("captured.txt", "w", stdout)) abort(); atexit(at_end); } } boot2;
