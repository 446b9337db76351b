// Symbolic side of the zero-knowledge program's stand-ins (GMP integers, challenges, bit-level group routines).
#include "gmp.h"
#include <vector>
#include "bn.h"
#include "linear_gkr/prime_field.h"
#include "symx_api.h"
typedef prime_field::u512b u512;
namespace symx {
u512 zadd(const u512 &, const u512 &); u512 zsub(const u512 &, const u512 &); u512 zmul(const u512 &, const u512 &);
u512 zrem(const u512 &, const u512 &); bool zge(const u512 &, const u512 &); bool zeq(const u512 &, const u512 &);
u512 zred(const u512 &); std::string zstr(const u512 &); u512 zparse(const std::string &); u512 zsym(const std::string &);
u512 zint(long); u512 zuint(unsigned long); bool zsymbolic(const u512 &); u512 ztaint(const char *);
u512 zbitval(const std::string &, const u512 &, const std::vector<unsigned long> &);
u512 zbits(int, const u512 &, const u512 &, unsigned long); unsigned long zget(const u512 &);
}
using namespace symx;
static const u512 &U(const mpz_class &a) { return *(const u512 *)&a; }
static mpz_class M(const u512 &x) { mpz_class r; memcpy((void *)&r, (const void *)&x, sizeof r); return r; }
static_assert(sizeof(u512) == sizeof(mpz_class), "layout");
mpz_class::mpz_class() { memset((void *)this, 0, sizeof *this); }
mpz_class::mpz_class(int x) { *this = M(zint(x)); }
mpz_class::mpz_class(long x) { *this = M(zint(x)); }
mpz_class::mpz_class(long long x) { *this = M(zint(x)); }
mpz_class::mpz_class(unsigned long x) { memset((void *)this, 0, sizeof *this); memcpy((void *)this, &x, sizeof x); }      // as zuint(x)
mpz_class::mpz_class(unsigned long long x) { *this = M(zuint(x)); }
mpz_class::mpz_class(const std::string &s, int) { *this = M(zparse(s)); }
mpz_class::mpz_class(const char *s, int) { *this = M(zparse(s)); }
std::string mpz_class::get_str(int) const { return zstr(U(*this)); }
int mpz_class::set_str(const std::string &s, int) { *this = M(zparse(s)); return 0; }
mpz_class &mpz_class::operator+=(const mpz_class &b) { return *this = *this + b; }
mpz_class &mpz_class::operator-=(const mpz_class &b) { return *this = *this - b; }
mpz_class &mpz_class::operator*=(const mpz_class &b) { return *this = *this * b; }
mpz_class &mpz_class::operator%=(const mpz_class &b) { return *this = *this % b; }
mpz_class operator+(const mpz_class &a, const mpz_class &b) { return M(zadd(U(a), U(b))); }
mpz_class operator-(const mpz_class &a, const mpz_class &b) { return M(zsub(U(a), U(b))); }
mpz_class operator*(const mpz_class &a, const mpz_class &b) { return M(zmul(U(a), U(b))); }
mpz_class operator%(const mpz_class &a, const mpz_class &b) { return M(zrem(U(a), U(b))); }
mpz_class operator-(const mpz_class &a) { return mpz_class(0) - a; }
mpz_class operator>>(const mpz_class &a, unsigned long n) { return M(zbits(0, U(a), U(a), n)); }
mpz_class operator<<(const mpz_class &a, unsigned long n) { return M(zbits(1, U(a), U(a), n)); }
mpz_class operator&(const mpz_class &a, const mpz_class &b) { return M(zbits(2, U(a), U(b), 0)); }
bool operator>=(const mpz_class &a, const mpz_class &b) { return zge(U(a), U(b)); }
bool operator<(const mpz_class &a, const mpz_class &b) { return !zge(U(a), U(b)); }
bool operator>(const mpz_class &a, const mpz_class &b) { return !zge(U(b), U(a)); }
bool operator<=(const mpz_class &a, const mpz_class &b) { return zge(U(b), U(a)); }
bool operator==(const mpz_class &a, const mpz_class &b) { return zeq(U(a), U(b)); }
bool operator!=(const mpz_class &a, const mpz_class &b) { return !zeq(U(a), U(b)); }
std::ostream &operator<<(std::ostream &o, const mpz_class &a) { return o << a.get_str(); }
bool zk_key = false;      // drawing a key
static long n_m = 0, n_t = 0;
void mpz_urandomm(mpz_class *r, gmp_randstate_t &, const mpz_class *n) 
{
  static const bool fixed = getenv("ZK_FIXED_KEYS");      // keys as known integers
  if (fixed) { mpz_class v(1ul); for (int k = 0; k < 4; ++k) v = v * mpz_class(0x9e3779b97f4a7c15ul + 2 * n_m + k) % *n; *r = v; ++n_m; return; }
  *r = M(zsym((zk_key ? "k" : "m") + std::to_string(n_m++)));
}
size_t mpz_sizeinbase(const mpz_class *a, int b) { return zget(U(M(zbits(3, U(*a), U(*a), b)))); }
int mpz_tstbit(const mpz_class *a, unsigned long i) { return (int)zget(U(M(zbits(4, U(*a), U(*a), i)))); }
long mpz_get_si(const mpz_class *a) { return (long)zget(U(*a)); }
unsigned long mpz_get_ui(const mpz_class *a) { return mpz_get_si(a); }
unsigned long mpz_class::get_ui() const { return mpz_get_ui(this); }
long mpz_class::get_si() const { return mpz_get_si(this); }
namespace zk {
mpz_class bitval(const char *prefix, const mpz_class &base, const std::vector<unsigned long> &pos) { return M(zbitval(prefix, U(base), pos)); }
mpz_class red(const mpz_class &x) { return M(zred(U(x))); }
bool same(const mpz_class &a, const mpz_class &b) { return zeq(U(red(a)), U(red(b))); }
}
namespace prime_field { mpz_class field_element::to_gmp_class() { return M(value); } }
#ifdef ZK_CONTRACTS
// Bit-level group routines by their contract (the contracts themselves are decided by a separate task).
#define PRE_EXP(NS) namespace NS { \
  template<class T> T pre_exp(std::vector<T> &pre, mpz_class n); \
  template<> bn::Ec1 pre_exp<bn::Ec1>(std::vector<bn::Ec1> &pre, mpz_class n) { return pre[0] * n; } \
  template<> bn::Ec2 pre_exp<bn::Ec2>(std::vector<bn::Ec2> &pre, mpz_class n) { return pre[0] * n; } }
PRE_EXP(vpdR) PRE_EXP(vpd_test) PRE_EXP(input_vpd)
namespace input_vpd {
extern bn::Ec1 g1; extern std::vector<bn::Ec1> pub_g1; extern int NumOfVar;
void KeyGen_preprocessing(bn::Ec1 g) {}
bn::Ec1 g1_exp(mpz_class a) { return g1 * a; }
#ifndef ZK_REAL_MSC
bn::Ec1 multi_scalar_calc(int index, int pub_g1_length, const std::vector<mpz_class> &x)
{
  bn::Ec1 r = g1 * 0;
  int w = x.size();
  for (int j = 0; j < w; ++j)
    if (index * w + j < (1 << NumOfVar)) r += pub_g1[index * w + j] * x[j];
  return r;
}
#endif
}
#endif
// Fiat-Shamir challenges: every call hands out fresh, unconstrained field elements.
#ifndef ZK_OWN_TRANSCRIPT
class proof_transcript { public: prime_field::field_element *random(int size); };
prime_field::field_element *proof_transcript::random(int size)
{
  prime_field::field_element *r = new prime_field::field_element[size];
  for (int i = 0; i < size; ++i) { r[i] = symx::sym("t" + std::to_string(n_t++)); }
  return r;
}
#endif
