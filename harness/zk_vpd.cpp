// The three polynomial commitment schemes on their own.  argv: scheme(R|mask|input) variables mode(honest|bind)
#include "symx_api.h"
#include "bn.h"
using namespace std;
#include "VPD/vpdR.h"
#include "VPD/vpd_test.h"
#include "VPD/input_vpd.h"
#include <cstdlib>
#include <cstdio>
#include <map>
using prime_field::field_element;
using bn::Ec1; using bn::Ec2;
typedef std::vector<mpz_class> VZ; typedef std::vector<Ec1> VE;
#define PUB(NS) namespace NS { extern Ec1 g1, g1a; extern std::vector<Ec1> pub_g1; extern mpz_class a; extern std::vector<mpz_class> s; extern int NumOfVar; }
PUB(vpdR) PUB(vpd_test) PUB(input_vpd)
static mpz_class S(const std::string &n, int k = -1) { field_element t = symx::sym(k < 0 ? n : n + std::to_string(k)); return t.to_gmp_class(); }
static field_element fe(const mpz_class &x) { field_element r; auto s = x.get_str(); r.value = prime_field::u512b(s.c_str(), s.length(), 10); return r; }
static VZ syms(const char *n, int c) { VZ r; for (int i = 0; i < c; ++i) r.push_back(S(n, i)); return r; }
// any combination of the published elements
static Ec1 combo(const std::string &n, const VE &pub) { Ec1 r = pub[0] * 0; for (size_t k = 0; k < pub.size(); ++k) r += pub[k] * S(n, k); return r; }
static std::map<std::string, int> cnt;
static void ev(const char *n, const mpz_class &x) { symx::out(n + std::to_string(cnt[n]++), fe(zk::red(x))); }
static int d; static std::string mode;
static VE combos(const VE &pub) { VE w; for (int i = 0; i <= d; ++i) w.push_back(combo("w" + std::to_string(i) + "_", pub)); return w; }
static VE companions() { VE w; for (int i = 0; i <= d; ++i) { Ec1 t; t.e = S("wa", i); w.push_back(t); } return w; }
static void pk(const VE &pub, const VZ &s, const mpz_class &a, const Ec1 &g1a)
{
	for (auto &x : pub) ev("pub", x.e);
	for (auto &x : s) ev("secret", x);
	ev("alpha", a); ev("g1a", g1a.e);
}
int main(int argc, char **argv)
{
	prime_field::init("16798108731015832284940804142231733909759579603404752749028378864165570215949", 10);
	std::string sc = argv[1]; d = atoi(argv[2]); mode = argv[3];
	bool honest = mode == "honest", ok;
	int bad = argc > 4 ? atoi(argv[4]) : -1;      // honest opening with this witness's companion altered
	VZ r = syms("t", d);
	mpz_class ans;
	VE w, wa; Ec1 dg, dga;
	if (sc == "input")
	{
		using namespace input_vpd;
		environment_init(); KeyGen(d); pk(pub_g1, s, a, g1a);
		mpz_class Z = S("z"); Ec1 dg2, dg2a;
		if (honest)
		{
			VZ in = syms("x", 1 << d), in2 = syms("y", 2);
			in.push_back(mpz_class(0));
			auto rf = commit(dg, dga, dg2, dg2a, in, in2); ev("blind", rf.first); ev("blind", rf.second);
			prove(r, ans, in, in2, w, wa, rf.first, rf.second, Z);
			if (bad >= 0) wa[bad] += g1;
			ok = check_commit(dg, dga, dg2, dg2a) & input_vpd::verify(r, dg, dg2, Z, ans, w, wa);
		}
		else if (mode == "cc") { dg.e = S("y0"); dga.e = S("y1"); dg2.e = S("y2"); dg2a.e = S("y3"); ok = check_commit(dg, dga, dg2, dg2a); }
		else
		{
			dg = combo("y", pub_g1); dg2 = combo("v", pub_g1); w = combos(pub_g1); wa = companions(); ans = S("answer");
			ok = input_vpd::verify(r, dg, dg2, Z, ans, w, wa);
		}
		if (mode != "cc") ev("digest", dg.e), ev("digest", dg2.e);
	}
#define SCHEME(NS, NC) { \
		using namespace NS; \
		environment_init(); KeyGen(d); pk(pub_g1, NS::s, NS::a, NS::g1a); \
		if (honest) { \
			VZ in = syms("x", NC); \
			mpz_class rf = NS::commit(dg, dga, in); ev("blind", rf); \
			NS::prove(r, ans, in, w, wa, rf); if (bad >= 0) wa[bad] += NS::g1; \
			ok = NS::check_commit(dg, dga) & NS::verify(r, dg, ans, w, wa); } \
		else if (mode == "cc") { dg.e = S("y0"); dga.e = S("y1"); ok = NS::check_commit(dg, dga); } \
		else { \
			dg = combo("y", NS::pub_g1); w = combos(NS::pub_g1); wa = companions(); ans = S("answer"); \
			ok = NS::verify(r, dg, ans, w, wa); } }
	else if (sc == "R") SCHEME(vpdR, 6)
	else SCHEME(vpd_test, 2 * d + 1 + 6)
	if (mode != "cc")
	{
		ev("answer", ans); if (!cnt["digest"]) ev("digest", dg.e);
		for (int i = 0; i <= d; ++i) { ev("w", w[i].e); ev("wa", wa[i].e); }
	}
	symx::finish(ok ? "accept" : "reject");
	return 0;
}
