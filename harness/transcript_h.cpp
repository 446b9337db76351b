// The real proof_transcript on messages of any value.  kinds: f field element, c group element, r public randomness;
// then for each message 32 bytes.  Shared by the IR executor and the native replay.
#include <vector>
#include <cstring>
#include <cstdio>
#include "linear_gkr/transcript.h"
using prime_field::field_element;
#ifndef TRANS_NATIVE
std::vector<bool> field_element::bit_stream()        // F05
{
	std::vector<bool> out;
	for (int i = 0; i < 128; ++i) out.push_back((value.lo >> i) & 1);
	for (int i = 0; i < 128; ++i) out.push_back((value.mid >> i) & 1);
	return out;
}
#endif
static void add(proof_transcript &t, int kind, const unsigned char *b)
{
	if (kind == 'c') { bn::Ec1 e; memcpy(&e, b, sizeof e); t.msg.push_back(container(e)); return; }
	field_element x; memcpy(&x.value.lo, b, 16); memcpy(&x.value.mid, b + 16, 16);
	t.msg.push_back(container(x, kind == 'f' ? container::fld_ele_indicator : container::randomness_indicator));
}
// a 'd' draws one challenge, 'D' three; they are written to res one after the other
extern "C" int run_random(const char *kinds, const unsigned char *bytes, unsigned char *res)
{
	proof_transcript t;
	int n = 0, k = 0;
	for (int i = 0; kinds[i]; ++i)
		if (kinds[i] == 'd') { field_element r = t.random(); memcpy(res + 32 * n, &r.value.lo, 16); memcpy(res + 32 * n + 16, &r.value.mid, 16); ++n; }
		else if (kinds[i] == 'D')
		{
			field_element *r = t.random(3);
			for (int j = 0; j < 3; ++j) { memcpy(res + 32 * n, &r[j].value.lo, 16); memcpy(res + 32 * n + 16, &r[j].value.mid, 16); ++n; }
		}
		else add(t, kinds[i], bytes + 32 * k++);
	return n;
}
extern "C" int run_file(const char *kinds, const unsigned char *bytes, char *name)
{
	proof_transcript t;
	for (int i = 0; kinds[i]; ++i) add(t, kinds[i], bytes + 32 * i);
	t.output_to_file(name);
	return t.get_proof_size();
}
#ifdef TRANS_NATIVE
#include <string>
#include <iostream>
#include <cstdlib>
// random|file kinds hex...
int main(int argc, char **argv)
{
	prime_field::init("16798108731015832284940804142231733909759579603404752749028378864165570215949", 10);
	std::string kinds = argv[2], hex = argv[3];
	std::vector<unsigned char> b(hex.size() / 2 + 32), res(6400);
	for (size_t i = 0; i + 1 < hex.size(); i += 2) b[i / 2] = strtoul(hex.substr(i, 2).c_str(), 0, 16);
	if (argv[1][0] == 'r') { int n = run_random(kinds.c_str(), b.data(), res.data()); for (int i = 0; i < 32 * n; ++i) printf("%02x%s", res[i], i % 32 == 31 ? "\n" : ""); }
	else printf("%d\n", run_file(kinds.c_str(), b.data(), argv[4]));
	return 0;
}
#endif
