// Every polynomial operation on symbolic coefficients.
#include "linear_gkr/polynomial.h"
#include "symx_api.h"
#include <cstdlib>
typedef prime_field::field_element fe;
using std::string;
static fe s(const string &n) { return symx::sym(n); }
int main()
{
	prime_field::init("16798108731015832284940804142231733909759579603404752749028378864165570215949", 10);
	fe x = s("x");
	linear_poly l(s("l0"), s("l1")), m(s("m0"), s("m1")), k(s("k0"));
	quadratic_poly q(s("q0"), s("q1"), s("q2")), r(s("r0"), s("r1"), s("r2"));
	cubic_poly c(s("c0"), s("c1"), s("c2"), s("c3")), d(s("d0"), s("d1"), s("d2"), s("d3"));
	quadruple_poly e(s("e0"), s("e1"), s("e2"), s("e3"), s("e4")), f(s("f0"), s("f1"), s("f2"), s("f3"), s("f4"));
	quintuple_poly g(s("g0"), s("g1"), s("g2"), s("g3"), s("g4"), s("g5")), h(s("h0"), s("h1"), s("h2"), s("h3"), s("h4"), s("h5"));
	symx::out("l", l.eval(x)); symx::out("k", k.eval(x)); symx::out("q", q.eval(x)); symx::out("c", c.eval(x)); symx::out("e", e.eval(x)); symx::out("g", g.eval(x));
	symx::out("l+m", (l + m).eval(x)); symx::out("q+r", (q + r).eval(x)); symx::out("c+d", (c + d).eval(x)); symx::out("e+f", (e + f).eval(x)); symx::out("g+h", (g + h).eval(x));
	symx::out("l*m", (l * m).eval(x)); symx::out("q*m", (q * m).eval(x)); symx::out("l*l", (l * l).eval(x));
	// coefficients, highest first
	symx::out("cl", l.a); symx::out("cq", q.a); symx::out("cc", c.a); symx::out("ce", e.a); symx::out("cg", g.a);
	symx::out("zl", l.b); symx::out("zq", q.c); symx::out("zc", c.d); symx::out("ze", e.e); symx::out("zg", g.f);
	symx::finish("done");
	return 0;
}
