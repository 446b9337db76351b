// Ideal bilinear group standing in for the ate-pairing library (not in this repository): an element of G1, G2, GT is
// its discrete logarithm, the pairing multiplies logarithms, equality is equality of logarithms modulo the group order.
#pragma once
#include <gmp.h>
#include <gmpxx.h>
#include <iostream>
#include <cstdlib>
#include <cassert>
#include <string>
namespace zk {
  mpz_class red(const mpz_class &x);                      // canonical residue modulo the group order
  bool same(const mpz_class &a, const mpz_class &b);      // equality of canonical residues
}
namespace mie { struct Vuint { mpz_class v; Vuint() {} Vuint(unsigned long x) : v(x) {} Vuint(int x) : v((long)x) {} explicit Vuint(const char *s) : v(zk_parse(s)) {} explicit Vuint(const std::string &s) : v(zk_parse(s.c_str())) {} static mpz_class zk_parse(const char *s) { return mpz_class(std::string(s), 10); } }; }
namespace bn {
struct CurveParam { long z; int b; int xi_a; int xi_b; bool operator==(const CurveParam &o) const { return z == o.z && b == o.b; } bool operator!=(const CurveParam &o) const { return !(*this == o); } };
static const CurveParam CurveFp254BNb = {1, 2, 1, 1};
struct Fp { Fp() {} Fp(int) {} explicit Fp(const char *) {} explicit Fp(const std::string &) {} };
struct Fp2 { Fp2() {} Fp2(const Fp &, const Fp &) {} };
struct Param { static void init(const CurveParam &, int = 0) {} };
template<int N> struct G
{
  mpz_class e;
  G() : e(0ul) {}
  struct Log {}; G(const mpz_class &x, Log) : e(x) {}
  G(const Fp &, const Fp &) : e(1ul) {} G(int, int) : e(1ul) {}
  G(const Fp2 &, const Fp2 &) : e(1ul) {}
  G operator+(const G &b) const { return G(zk::red(e + b.e), Log()); }
  G operator-(const G &b) const { return G(zk::red(e - b.e), Log()); }
  G operator-() const { return G(zk::red(mpz_class(0ul) - e), Log()); }
  G &operator+=(const G &b) { e = zk::red(e + b.e); return *this; }
  G &operator-=(const G &b) { e = zk::red(e - b.e); return *this; }
  G operator*(const mie::Vuint &n) const { return G(zk::red(e * n.v), Log()); }
  G operator*(const mpz_class &n) const { return G(zk::red(e * n), Log()); }
  G operator*(int n) const { return G(zk::red(e * mpz_class((long)n)), Log()); }
  G operator*(unsigned int n) const { return G(zk::red(e * mpz_class((unsigned long)n)), Log()); }
  G &operator*=(int n) { return *this = *this * n; }
  bool operator==(const G &b) const { return zk::same(e, b.e); }
  bool operator!=(const G &b) const { return !zk::same(e, b.e); }
  bool isZero() const { return zk::same(e, mpz_class(0ul)); }
  void clear() { e = mpz_class(0ul); }
};
typedef G<1> Ec1; typedef G<2> Ec2;
struct Fp12
{
  mpz_class e;
  Fp12() : e(0ul) {}
  Fp12(int x) : e(0ul) { assert(x == 1); }
  Fp12 &operator*=(const Fp12 &b) { e = zk::red(e + b.e); return *this; }
  Fp12 operator*(const Fp12 &b) const { Fp12 r = *this; return r *= b; }
  bool operator==(const Fp12 &b) const { return zk::same(e, b.e); }
  bool operator!=(const Fp12 &b) const { return !zk::same(e, b.e); }
};
inline void opt_atePairing(Fp12 &f, const Ec2 &q, const Ec1 &p) { f.e = zk::red(p.e * q.e); }
}
