// the compression function: 512 bits to 256, uninterpreted
#pragma once
#include <cstring>
#include <cstdio>
#ifdef TRANS_NATIVE
#include "real_hhash.h"
#else
class __hhash_digest { public: __uint128_t h0, h1; };
void my_hhash(const void *src, void *dst);
#endif
