// the real compression function and the digest comparison; shared by the IR executor and the native replay
#include <cstring>
#include "infrastructure/my_hhash.h"
extern "C" int run_hash(const void *src, void *dst) { my_hhash(src, dst); return 0; }
extern "C" int run_equals(const void *a, const void *b)
{
	__hhash_digest x, y;
	memcpy(&x, a, 32); memcpy(&y, b, 32);
	return equals(x, y);
}
#ifdef TRANS_NATIVE
#include <cstdio>
#include <cstdlib>
int main(int argc, char **argv)
{
	unsigned char b[64], o[32];
	for (int i = 0; i < 64; ++i) { char t[3] = {argv[2][2 * i], argv[2][2 * i + 1], 0}; b[i] = strtoul(t, 0, 16); }
	if (argv[1][0] == 'e') { printf("%d\n", run_equals(b, b + 32)); return 0; }
	run_hash(b, o);
	for (int i = 0; i < 32; ++i) printf("%02x", o[i]);
	puts("");
}
#endif
