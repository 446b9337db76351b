// multi_scalar_calc over the tables KeyGen builds.  argv: - base(decimal) position[,position...] variables index length
#include "symx_api.h"
#include "bn.h"
#include "VPD/input_vpd.h"
#include <cstring>
namespace zk { mpz_class bitval(const char *prefix, const mpz_class &base, const std::vector<unsigned long> &pos); }
namespace input_vpd { extern Ec1 g1; extern Ec2 g2; extern std::vector<Ec1> pub_g1; Ec1 multi_scalar_calc(int, int, const std::vector<mpz_class> &); }
static prime_field::field_element fe(const mpz_class &x) { prime_field::field_element r; auto s = x.get_str(); r.value = prime_field::u512b(s.c_str(), s.length(), 10); return r; }
static void res(const mpz_class &got, const mpz_class &want) { symx::out("got", fe(zk::red(got))); symx::out("want", fe(zk::red(want))); symx::finish("done"); exit(0); }
int main(int argc, char **argv)
{
	prime_field::init("16798108731015832284940804142231733909759579603404752749028378864165570215949", 10);
	mpz_class base(std::string(argv[2]), 10);
	std::vector<unsigned long> pos;
	for (char *s = strtok(argv[3], ","); s; s = strtok(0, ",")) pos.push_back(strtoul(s, 0, 10));
	input_vpd::environment_init();
	input_vpd::g1.e = mpz_class(std::string("31415926535897932384626433832795028841971"), 10);
	const int w = 8;
	// bit pos[j] of scalar j is a symbol
	int d = atoi(argv[4]), index = atoi(argv[5]), len = atoi(argv[6]);
	input_vpd::KeyGen(d);
	std::vector<mpz_class> x(w);
	mpz_class want(0ul);
	for (int j = 0; j < w; ++j)
	{
		x[j] = mpz_class(0ul);
		if (index * w + j >= len) continue;
		mpz_class b = base * mpz_class((unsigned long)(j * 7919 + 3)) % (mpz_class(1ul) << 250);
		x[j] = zk::bitval(("b" + std::to_string(j) + "_").c_str(), b, {pos[j % pos.size()]});
		want = zk::red(want + x[j] * input_vpd::pub_g1[index * w + j].e);
	}
	res(input_vpd::multi_scalar_calc(index, len, x).e, want);
}
