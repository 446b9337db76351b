#include <vector>
#include <cstdlib>
// Native side of the zero-knowledge program's stand-ins: GMP itself, the group still ideal; randomness from the replayed values.
#include <gmp.h>
#include <gmpxx.h>
#include "bn.h"
#include "linear_gkr/prime_field.h"
#include "symx_api.h"
static const mpz_class ORDER("16798108731015832284940804142231733909759579603404752749028378864165570215949");
namespace zk {
mpz_class red(const mpz_class &x) { mpz_class r; mpz_fdiv_r(r.get_mpz_t(), x.get_mpz_t(), ORDER.get_mpz_t()); return r; }
bool same(const mpz_class &a, const mpz_class &b) { return getenv("FS_NATIVE") || red(a) == red(b); }
}
static mpz_class val(const prime_field::field_element &x)
{
  unsigned long w[4] = {(unsigned long)x.value.lo, (unsigned long)(x.value.lo >> 64), (unsigned long)x.value.mid, (unsigned long)(x.value.mid >> 64)};
  mpz_class v; mpz_import(v.get_mpz_t(), 4, -1, 8, 0, 0, w); return v;
}
bool zk_key = false;      // drawing a key
static long n_m = 0, n_t = 0;
extern "C" void __gmpz_urandomm(mpz_ptr r, gmp_randstate_ptr, mpz_srcptr n)
{
  if (getenv("ZK_FIXED_KEYS"))
  {
    mpz_class v(1ul), m(n);
    for (int k = 0; k < 4; ++k) v = v * mpz_class(0x9e3779b97f4a7c15ul + 2 * n_m + k) % m;
    mpz_set(r, v.get_mpz_t()); ++n_m; return;
  }
  mpz_class v = val(symx::sym((zk_key ? "k" : "m") + std::to_string(n_m++)));
  mpz_set(r, v.get_mpz_t());
}
#ifndef ZK_OWN_TRANSCRIPT
class proof_transcript { public: prime_field::field_element *random(int size); };
prime_field::field_element *proof_transcript::random(int size)
{
  prime_field::field_element *r = new prime_field::field_element[size];
  for (int i = 0; i < size; ++i) r[i] = symx::sym("t" + std::to_string(n_t++));
  return r;
}
#endif

namespace zk {
mpz_class bitval(const char *prefix, const mpz_class &base, const std::vector<unsigned long> &pos)
{
  mpz_class r = base;
  for (size_t k = 0; k < pos.size(); ++k)
    if (val(symx::sym(prefix + std::to_string(k))) != 0) mpz_setbit(r.get_mpz_t(), pos[k]); else mpz_clrbit(r.get_mpz_t(), pos[k]);
  return r;
}
}
