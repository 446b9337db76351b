import os, json
R="/verif/seeded/"
SH='''#!/bin/bash
# exit 0: behaves as it should; exit 1: the property is broken
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
%s
'''
FIELD='clang++ -std=c++11 -O1 -w -I include src/linear_gkr/prime_field.cpp "$here/demo.cpp" -o "$d/demo" -lgmp -lgmpxx || exit 2\n"$d/demo"'
def mk(i, prop, needs, breaks, sh, **files):
    d=R+i; os.makedirs(d, exist_ok=True)
    open(d+"/demo.sh","w").write(SH % sh); os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks}, open(d+"/meta.json","w"), indent=1)
    for f,c in files.items(): open(d+"/"+f.replace("_dot_","."),"w").write(c)
HEAD='''#include "linear_gkr/prime_field.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
using namespace prime_field;
static const char *PS = "16798108731015832284940804142231733909759579603404752749028378864165570215949";
static mpz_class w128(__uint128_t x) { mpz_class h((unsigned long)(x >> 64)), l((unsigned long)x); return (h << 64) + l; }
static mpz_class val(const u256b &x) { mpz_class a((unsigned long)x.lo), b((unsigned long)x.mid); return a + (b << 64) + (w128(x.hi) << 128); }
static mpz_class val(const u512b &x) { return w128(x.lo) + (w128(x.mid) << 128) + (val(x.hi) << 256); }
static field_element fe(const mpz_class &z) { std::string s = z.get_str(); field_element r; r.value = u512b(s.c_str(), (int)s.size(), 10); return r; }
static unsigned long long seed = 88172645463325252ull;
static unsigned long long rnd() { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed; }
'''
# limbs drawn from corner values
CORNER='''static u512b corner() {
	u512b r; r.hi = u256b((unsigned long long)0);
	__uint128_t all = ~(__uint128_t)0;
	for(;;) {
		__uint128_t v[2];
		for(int k = 0; k < 2; ++k) switch(rnd() % 6) {
			case 0: v[k] = 0; break; case 1: v[k] = all; break; case 2: v[k] = all - 1; break; case 3: v[k] = 1; break;
			case 4: v[k] = ((__uint128_t)rnd() << 64) | rnd(); break; default: v[k] = ((__uint128_t)(rnd() & 1 ? ~0ull : 0) << 64) | (rnd() & 1 ? ~0ull : rnd()); }
		r.lo = v[0]; r.mid = v[1];
		if(val(r) < mpz_class(PS)) return r;
		r.mid >>= 3;
		if(val(r) < mpz_class(PS)) return r;
	}
}
'''
mk("F01-sum-is-p","F01","two operands whose sum is exactly the prime",
 "the sum is left as p instead of 0: a non-canonical element that is unequal to zero",FIELD,demo_dot_cpp=HEAD+'''
int main() {
	init(PS, 10); mpz_class p(PS); int bad = 0;
	for(int i = 0; i < 2000; ++i) {
		mpz_class x = 0;
		for(int j = 0; j < 4; ++j) x = (x << 64) + mpz_class((unsigned long)rnd());
		x = i < 5 ? mpz_class(i) : x % p;
		for(int e = -2; e <= 2; ++e) {
			mpz_class y = ((p - x + e) % p + p) % p;
			field_element a = fe(x), b = fe(y);
			if(val((a + b).value) != (x + y) % p || val((a - b).value) != (x - y + p) % p || val((b - a).value) != (y - x + p) % p) bad++;
		}
	}
	printf("%d wrong sums or differences\\n", bad);
	return bad != 0;
}
''')
mk("F02-low-zero","F02","a product that is a multiple of 2^256",
 "the reduction returns such a product unreduced: the result is far above the prime",FIELD,demo_dot_cpp=HEAD+'''
int main() {
	init(PS, 10); mpz_class p(PS); int bad = 0;
	for(int i = 0; i < 253; ++i) for(int j = 0; j < 253; ++j) {
		mpz_class x = mpz_class((unsigned long)(rnd() % 15 + 1)) << i, y = mpz_class((unsigned long)(rnd() % 15 + 1)) << j;
		x %= p; y %= p;
		if(val((fe(x) * fe(y)).value) != x * y % p) bad++;
		x = mpz_class(1) << i; y = mpz_class(1) << j;
		if(val((fe(x) * fe(y)).value) != x * y % p) bad++;
	}
	printf("%d wrong products\\n", bad);
	return bad != 0;
}
''')
mk("F03-half-compare","F03","two elements that differ only in bits 192..255",
 "equality ignores the upper half of the middle word: different elements compare equal",FIELD,demo_dot_cpp=HEAD+'''
int main() {
	init(PS, 10); int bad = 0;
	for(int b = 0; b < 253; ++b) for(int k = 0; k < 40; ++k) {
		mpz_class base = 0;
		for(int j = 0; j < 4; ++j) base = (base << 64) + mpz_class((unsigned long)(rnd() & (k ? ~0ull : 0)));
		base %= mpz_class(1) << 253;
		mpz_class bit = mpz_class(1) << b, o = (base ^ bit);
		field_element x = fe(base), y = fe(o), z = fe(base);
		if(x == y || !(x != y) || x != z || !(x == z)) bad++;
	}
	printf("%d wrong comparisons\\n", bad);
	return bad != 0;
}
''')
mk("F04-sign","F04","an unsigned 64-bit integer of at least 2^63",
 "the integer is sign-extended on conversion to a field element",FIELD,demo_dot_cpp=HEAD+'''
int main() {
	init(PS, 10); int bad = 0;
	for(int i = 0; i < 64; ++i) for(int k = 0; k < 20; ++k) {
		unsigned long long x = k == 0 ? 1ull << i : k == 1 ? (1ull << i) - 1 : rnd() >> (63 - i);
		if(val(field_element(x).value) != mpz_class((unsigned long)x)) bad++;
		int y = (int)(x & 0x7fffffff);
		if(val(field_element(y).value) != mpz_class(y)) bad++;
	}
	printf("%d wrong conversions\\n", bad);
	return bad != 0;
}
''')
mk("F05-bitstream","F05","an element with different lower and upper halves in bits 128..255",
 "the exported bit stream repeats bits 128..191 in place of bits 192..255",FIELD,demo_dot_cpp=HEAD+'''
int main() {
	init(PS, 10); int bad = 0;
	for(int i = 0; i < 2000; ++i) {
		mpz_class v = 0;
		for(int j = 0; j < 4; ++j) v = (v << 64) + mpz_class((unsigned long)rnd());
		v %= mpz_class(PS);
		field_element x = fe(v);
		std::vector<bool> b = x.bit_stream();
		mpz_class up = 0, down = 0;
		for(size_t k = 0; k < b.size(); ++k) { down = (down << 1) + (b[k] ? 1 : 0); if(b[k]) up += mpz_class(1) << k; }
		if(up != v && down != v) bad++;
	}
	printf("%d wrong bit streams\\n", bad);
	return bad != 0;
}
''')
mk("F06-entropy","F06","counting which bits of the generator reach the challenge",
 "the middle word of a challenge takes only 16 bits of generator output: a challenge has 78 bits of entropy instead of 93",FIELD,demo_dot_cpp=HEAD.replace("using namespace prime_field;",'''using namespace prime_field;
static int seq[64], used, flip_call = -1, flip_bit;
extern "C" int rand(void) { int k = used++; int v = seq[k % 64]; if(k == flip_call) v ^= 1 << flip_bit; return v; }
extern "C" void srand(unsigned) {}
''')+'''
int main() {
	init(PS, 10); int total = 0;
	for(int i = 0; i < 64; ++i) seq[i] = (int)(rnd() & 0x7fffffff);
	used = 0; field_element base = prime_field::random(); int calls = used;
	for(int c = 0; c < calls && c < 64; ++c) for(int b = 0; b < 31; ++b) {
		used = 0; flip_call = c; flip_bit = b;
		field_element x = prime_field::random();
		if(val(x.value) != val(base.value)) total++;
	}
	printf("%d generator bits influence a challenge\\n", total);
	return total < 93;
}
''')
mk("P01-sparse","P01","a degree-5 polynomial whose two leading coefficients are zero and whose constant term is not",
 "the evaluation of such a polynomial drops its constant term",
 'clang++ -std=c++11 -O1 -w -I include src/linear_gkr/prime_field.cpp src/linear_gkr/polynomial.cpp "$here/demo.cpp" -o "$d/demo" -lgmp -lgmpxx || exit 2\n"$d/demo"',demo_dot_cpp='''#include "linear_gkr/polynomial.h"
#include <cstdio>
typedef prime_field::field_element F;
int main() {
	prime_field::init("16798108731015832284940804142231733909759579603404752749028378864165570215949", 10);
	int bad = 0;
	for(int m = 0; m < 64; ++m) for(int x = 0; x < 5; ++x) {
		long long c[6], e = 0;
		for(int k = 0; k < 6; ++k) { c[k] = (m >> k & 1) ? 3 + 2 * k : 0; e = e * x + c[k]; }
		quintuple_poly q((F((int)c[0])), F((int)c[1]), F((int)c[2]), F((int)c[3]), F((int)c[4]), F((int)c[5]));
		if(q.eval(F(x)) != F((int)e)) bad++;
		quadruple_poly r((F((int)c[1])), F((int)c[2]), F((int)c[3]), F((int)c[4]), F((int)c[5]));
		long long e4 = 0; for(int k = 1; k < 6; ++k) e4 = e4 * x + c[k];
		if(r.eval(F(x)) != F((int)e4)) bad++;
	}
	printf("%d wrong evaluations\\n", bad);
	return bad != 0;
}
''')
