// Stand-in for GMP in the symbolic build of the zero-knowledge program: an integer is a term of the engine with an
// interval, so that sums, products and remainders of symbolic integers stay symbolic.
#pragma once
#include <string>
#include <iostream>
#include <cstring>
typedef __uint128_t zk_word;
struct mpz_class
{
  zk_word w[4];                       // same layout as prime_field::u512b
  mpz_class(); mpz_class(int x); mpz_class(long x); mpz_class(unsigned long x); mpz_class(unsigned long long x); mpz_class(long long x);
  mpz_class(const std::string &s, int base = 10); mpz_class(const char *s, int base = 10);
  mpz_class *get_mpz_t() { return this; }
  const mpz_class *get_mpz_t() const { return this; }
  std::string get_str(int base = 10) const;
  int set_str(const std::string &s, int base);
  mpz_class &operator+=(const mpz_class &b); mpz_class &operator-=(const mpz_class &b);
  mpz_class &operator*=(const mpz_class &b); mpz_class &operator%=(const mpz_class &b);
  unsigned long get_ui() const; long get_si() const;
};
mpz_class operator+(const mpz_class &a, const mpz_class &b);
mpz_class operator-(const mpz_class &a, const mpz_class &b);
mpz_class operator*(const mpz_class &a, const mpz_class &b);
mpz_class operator%(const mpz_class &a, const mpz_class &b);
mpz_class operator-(const mpz_class &a);
mpz_class operator>>(const mpz_class &a, unsigned long n);
mpz_class operator<<(const mpz_class &a, unsigned long n);
mpz_class operator&(const mpz_class &a, const mpz_class &b);
bool operator<(const mpz_class &a, const mpz_class &b);
bool operator>(const mpz_class &a, const mpz_class &b);
bool operator<=(const mpz_class &a, const mpz_class &b);
bool operator>=(const mpz_class &a, const mpz_class &b);
bool operator==(const mpz_class &a, const mpz_class &b);
bool operator!=(const mpz_class &a, const mpz_class &b);
std::ostream &operator<<(std::ostream &o, const mpz_class &a);
struct gmp_randstate_t { int dummy; };
inline void gmp_randinit_default(gmp_randstate_t &) {}
inline void gmp_randinit_mt(gmp_randstate_t &) {}
inline void gmp_randseed_ui(gmp_randstate_t &, unsigned long) {}
inline void gmp_randclear(gmp_randstate_t &) {}
void mpz_urandomm(mpz_class *r, gmp_randstate_t &, const mpz_class *n);
size_t mpz_sizeinbase(const mpz_class *a, int base);
int mpz_tstbit(const mpz_class *a, unsigned long i);
long mpz_get_si(const mpz_class *a);
unsigned long mpz_get_ui(const mpz_class *a);
inline int mpz_cmp(const mpz_class *a, const mpz_class *b) { return *a < *b ? -1 : *a == *b ? 0 : 1; }
inline int mpz_sgn(const mpz_class *a) { return *a < mpz_class(0) ? -1 : *a == mpz_class(0) ? 0 : 1; }
inline void mpz_mod(mpz_class *r, const mpz_class *a, const mpz_class *n) { mpz_class t = *a % *n; if (t < mpz_class(0)) t += *n; *r = t; }
inline void mpz_add(mpz_class *r, const mpz_class *a, const mpz_class *b) { *r = *a + *b; }
inline void mpz_sub(mpz_class *r, const mpz_class *a, const mpz_class *b) { *r = *a - *b; }
inline void mpz_mul(mpz_class *r, const mpz_class *a, const mpz_class *b) { *r = *a * *b; }
