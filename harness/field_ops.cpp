// Native replay of single field-layer operations: one request per line, one answer per line (hex or text).
#include <cstdlib>
static int g_rand[64], g_nrand = 0, g_prand = 0;
extern "C" int rand() { return g_prand < g_nrand ? g_rand[g_prand++] : 0; }
#include REPO_PRIME_FIELD
#include <cstdio>
#include <cstring>
#include <string>
#include <iostream>
#include <sstream>
using namespace prime_field;
static void put(unsigned long long *l, const std::string &h)
{
	for (int i = 0; i < 8; ++i) l[i] = 0;
	std::string s = h; while (s.size() < 128) s = "0" + s;
	for (int i = 0; i < 8; ++i) l[7 - i] = strtoull(s.substr(16 * i, 16).c_str(), 0, 16);
}
static u512b U(const std::string &h)
{
	unsigned long long l[8]; put(l, h); u512b r;
	r.lo = ((__uint128_t)l[1] << 64) | l[0]; r.mid = ((__uint128_t)l[3] << 64) | l[2];
	r.hi.lo = l[4]; r.hi.mid = l[5]; r.hi.hi = ((__uint128_t)l[7] << 64) | l[6]; return r;
}
static u256b W(const std::string &h)
{
	unsigned long long l[8]; put(l, h); u256b r; r.lo = l[0]; r.mid = l[1]; r.hi = ((__uint128_t)l[3] << 64) | l[2]; return r;
}
static void o64(unsigned long long x) { printf("%016llx", x); }
static void o256(const u256b &x) { o64(x.hi >> 64); o64(x.hi); o64(x.mid); o64(x.lo); }
static void o512(const u512b &x) { o256(x.hi); o64(x.mid >> 64); o64(x.mid); o64(x.lo >> 64); o64(x.lo); }
static field_element F(const std::string &h) { field_element r; r.value = U(h); return r; }
int main()
{
	init("16798108731015832284940804142231733909759579603404752749028378864165570215949", 10);
	std::string line;
	while (std::getline(std::cin, line))
	{
		std::istringstream is(line); std::string op, a, b; is >> op >> a >> b;
		if (op == "u512add") o512(U(a) + U(b));
		else if (op == "u512sub") o512(U(a) - U(b));
		else if (op == "u512mul") o512(U(a) * U(b));
		else if (op == "u512rem") o512(U(a) % mod);
		else if (op == "u256add") o256(W(a) + W(b));
		else if (op == "u256mul") o256(W(a) * W(b));
		else if (op == "u512ne") printf("%d", U(a) != U(b));
		else if (op == "u512gt") printf("%d", U(a) > U(b));
		else if (op == "u512ge") printf("%d", U(a) >= U(b));
		else if (op == "u512lt") printf("%d", U(a) < U(b));
		else if (op == "fadd") o512((F(a) + F(b)).value);
		else if (op == "fsub") o512((F(a) - F(b)).value);
		else if (op == "fmul") o512((F(a) * F(b)).value);
		else if (op == "fmulnm") o512(F(a).mul_non_mod(F(b)).value);
		else if (op == "feq") printf("%d", F(a) == F(b));
		else if (op == "fne") printf("%d", F(a) != F(b));
		else if (op == "fint") o512(field_element((int)strtoll(a.c_str(), 0, 10)).value);
		else if (op == "full") o512(field_element((unsigned long long)strtoull(a.c_str(), 0, 10)).value);
		else if (op == "u512of256") o512(u512b(W(a)));
		else if (op == "parse256") o256(u256b(a.c_str(), a.size(), 10));
		else if (op == "parse512") o512(u512b(a.c_str(), a.size(), 10));
		else if (op == "bitlen") printf("%d", F(a).bitLen());
		else if (op == "testbit") printf("%d", W(a).testBit(atoi(b.c_str())));
		else if (op == "bits") { std::vector<bool> v = F(a).bit_stream(); for (size_t i = 0; i < v.size(); ++i) printf("%d", (int)v[i]); }
		else if (op == "gmp") printf("%s", F(a).to_gmp_class().get_str(16).c_str());
		else if (op == "string") { char *s = F(a).to_string(); fwrite(s, 1, 512, stdout); }
		else if (op == "random")
		{
			g_nrand = g_prand = 0; std::istringstream js(line); js >> op; int x; while (js >> x) g_rand[g_nrand++] = x;
			o512(prime_field::random().value); printf(" %d", g_prand);
		}
		else if (op == "consts") { o256(mod); printf(" "); o512(mod_512); printf(" "); o512(minus_mod_512); }
		printf("\n"); fflush(stdout);
	}
	return 0;
}
