// The group routines that work on the bits of a scalar.  argv: routine base(decimal) position[,position...]
#include "src/VPD/vpdR.cpp"
#undef P
#include "src/VPD/vpd_test.cpp"
#undef P
#include "src/VPD/inputvpd.cpp"
#undef P
#include "linear_gkr/prime_field.h"
#include "symx_api.h"
#include <cstring>
namespace zk { mpz_class bitval(const char *prefix, const mpz_class &base, const std::vector<unsigned long> &pos); }
static prime_field::field_element fe(const mpz_class &x) { prime_field::field_element r; auto s = x.get_str(); r.value = prime_field::u512b(s.c_str(), s.length(), 10); return r; }
static void res(const mpz_class &got, const mpz_class &want) { symx::out("got", fe(zk::red(got))); symx::out("want", fe(zk::red(want))); symx::finish("done"); exit(0); }
int main(int argc, char **argv)
{
	prime_field::init("16798108731015832284940804142231733909759579603404752749028378864165570215949", 10);
	std::string what = argv[1];
	mpz_class base(std::string(argv[2]), 10);
	std::vector<unsigned long> pos;
	for (char *s = strtok(argv[3], ","); s; s = strtok(0, ",")) pos.push_back(strtoul(s, 0, 10));
	mpz_class gg(std::string("31415926535897932384626433832795028841971"), 10);
#define PRE(NS, CALL) if (what == #NS) { NS::environment_init(); NS::g1.e = gg; NS::g2.e = gg + mpz_class(1ul); NS::CALL; \
		mpz_class n = zk::bitval("b", base, pos); \
		mpz_class a = NS::pre_exp(NS::g1_pre, n).e, b = NS::pre_exp(NS::g2_pre, n).e; \
		res(a + b * mpz_class(1ul << 20), n * NS::g1.e + n * NS::g2.e * mpz_class(1ul << 20)); }
	PRE(vpdR, precompute_g1(mpz_class(1ul)))
	PRE(vpd_test, precompute_g1(mpz_class(1ul)))
	PRE(input_vpd, precompute_g1())
	using namespace input_vpd;
	input_vpd::environment_init(); input_vpd::g1.e = gg; input_vpd::g2.e = gg + mpz_class(1ul);
	if (what == "g1_exp")
	{
		KeyGen_preprocessing(input_vpd::g1);
		mpz_class n = zk::bitval("b", base, pos);
		res(g1_exp(n).e, n * input_vpd::g1.e);
	}
	return 2;
}
