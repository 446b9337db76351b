// Native replay: the repository's own field layer; only prime_field::random() and the harness's
// named values come from the solver's assignment (REPLAY_VALUES), observations go to REPLAY_OUT.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <map>
#include <string>
#include <unistd.h>
#include "pf_abi.h"
namespace symx {
using std::string;
string random_prefix = "c";
static long n_random = 0;
static std::map<string, mpz_class> vals; static bool loaded = false;
static FILE *of;
static void load()
{
  if (loaded) return; loaded = true;
  const char *fn = getenv("REPLAY_VALUES");
  FILE *f = fn ? fopen(fn, "r") : 0;
  if (f) { static char n[4096], v[4096]; while (fscanf(f, "%4095s%4095s", n, v) == 2) vals[n] = mpz_class(v); fclose(f); }
  const char *o = getenv("REPLAY_OUT"); of = o ? fopen(o, "w") : 0;
}
static prime_field::field_element fe(const mpz_class &v)
{
  prime_field::field_element r;
  unsigned long w[4] = {0, 0, 0, 0}; mpz_export(w, 0, -1, 8, 0, 0, v.get_mpz_t());
  r.value.lo = ((__uint128_t)w[1] << 64) | w[0]; r.value.mid = ((__uint128_t)w[3] << 64) | w[2];
  return r;
}
prime_field::field_element sym(const string &name) { load(); return fe(vals[name]); }
void out(const string &name, const prime_field::field_element &x)
{
  load(); if (!of) return;
  unsigned long w[4] = {(unsigned long)x.value.lo, (unsigned long)(x.value.lo >> 64), (unsigned long)x.value.mid, (unsigned long)(x.value.mid >> 64)};
  mpz_class v; mpz_import(v.get_mpz_t(), 4, -1, 8, 0, 0, w);
  mpz_class h = mpz_class((unsigned long)x.value.hi.lo) + (mpz_class((unsigned long)x.value.hi.mid) << 64) + (mpz_class((unsigned long)x.value.hi.hi) << 128) + (mpz_class((unsigned long)(x.value.hi.hi >> 64)) << 192);
  v += h << 256;
  fprintf(of, "O %s %s\n", name.c_str(), v.get_str().c_str());
}
void note(const string &t) {}
void finish(const string &v) { load(); if (of) { fprintf(of, "V %s\n", v.c_str()); fclose(of); of = 0; } }
static void on(int s) { finish("abort"); _exit(0); }
struct Boot { Boot() { signal(SIGABRT, on); alarm(200); } } boot;
}
namespace prime_field { field_element random() { return symx::sym(symx::random_prefix + std::to_string(symx::n_random++)); } }
