// Stand-in for the pairing library: a bilinear group in which an element is its discrete logarithm.
#pragma once
#include <gmp.h>
#include <gmpxx.h>
#include <iostream>
#include <cstdlib>
#include <cassert>
#include <string>
namespace mie { struct Vuint { mpz_class v; Vuint() {} Vuint(int x) : v(x) {} explicit Vuint(const char *s) : v(s, 10) {} explicit Vuint(const std::string &s) : v(s, 10) {} }; }
namespace bn {
inline mpz_class red(const mpz_class &x) { static const mpz_class n("16798108731015832284940804142231733909759579603404752749028378864165570215949"); mpz_class r; mpz_fdiv_r(r.get_mpz_t(), x.get_mpz_t(), n.get_mpz_t()); return r; }
struct CurveParam { long z; int b, xi_a, xi_b; bool operator==(const CurveParam &o) const { return z == o.z && b == o.b; } bool operator!=(const CurveParam &o) const { return !(*this == o); } };
static const CurveParam CurveFp254BNb = {1, 2, 1, 1};
struct Fp { Fp() {} Fp(int) {} explicit Fp(const char *) {} explicit Fp(const std::string &) {} };
struct Fp2 { Fp2() {} Fp2(const Fp &, const Fp &) {} };
struct Param { static void init(const CurveParam &, int = 0) {} };
template<int N> struct G
{
  mpz_class e;
  G() {}
  G(int, int) : e(1) {}
  G(const Fp &, const Fp &) : e(1) {}
  G(const Fp2 &, const Fp2 &) : e(1) {}
  static G log(const mpz_class &x) { G r; r.e = red(x); return r; }
  G operator+(const G &b) const { return log(e + b.e); }
  G operator-(const G &b) const { return log(e - b.e); }
  G operator-() const { return log(-e); }
  G &operator+=(const G &b) { return *this = *this + b; }
  G &operator-=(const G &b) { return *this = *this - b; }
  G operator*(const mie::Vuint &n) const { return log(e * n.v); }
  G operator*(int n) const { return log(e * n); }
  bool operator==(const G &b) const { return e == b.e; }
  bool operator!=(const G &b) const { return e != b.e; }
};
typedef G<1> Ec1; typedef G<2> Ec2;
struct Fp12
{
  mpz_class e;
  Fp12() {}
  Fp12(int) {}
  Fp12 &operator*=(const Fp12 &b) { e = red(e + b.e); return *this; }
  bool operator==(const Fp12 &b) const { return e == b.e; }
  bool operator!=(const Fp12 &b) const { return e != b.e; }
};
inline void opt_atePairing(Fp12 &f, const Ec2 &q, const Ec1 &p) { f.e = red(p.e * q.e); }
}
