// SSE/AES intrinsics by their specification on 128-bit words; the cipher's rounds stay uninterpreted
#pragma once
typedef unsigned __int128 __m128i;
#define _MM_SHUFFLE(a, b, c, d) (((a) << 6) | ((b) << 4) | ((c) << 2) | (d))
extern "C" __m128i f_aesenc(__m128i a, __m128i k);
extern "C" __m128i f_aesenclast(__m128i a, __m128i k);
extern "C" __m128i f_keygen(__m128i a, int rcon);
#define _mm_aesenc_si128 f_aesenc
#define _mm_aesenclast_si128 f_aesenclast
#define _mm_aeskeygenassist_si128 f_keygen
inline __m128i _mm_loadu_si128(const __m128i *p) { return *p; }
inline __m128i _mm_load_si128(const __m128i *p) { return *p; }
inline __m128i _mm_lddqu_si128(const __m128i *p) { return *p; }
inline void _mm_storeu_si128(__m128i *p, __m128i x) { *p = x; }
inline void _mm_store_si128(__m128i *p, __m128i x) { *p = x; }
inline __m128i _mm_xor_si128(__m128i a, __m128i b) { return a ^ b; }
inline __m128i _mm_or_si128(__m128i a, __m128i b) { return a | b; }
inline __m128i _mm_and_si128(__m128i a, __m128i b) { return a & b; }
inline __m128i _mm_setzero_si128() { return 0; }
inline __m128i _mm_slli_si128(__m128i a, int k) { return k > 15 ? 0 : a << (8 * k); }
inline __m128i _mm_srli_si128(__m128i a, int k) { return k > 15 ? 0 : a >> (8 * k); }
inline __m128i _mm_shuffle_epi32(__m128i a, int m)
{
  __m128i r = 0;
  for (int i = 0; i < 4; ++i) r |= (__m128i)(unsigned)(a >> (32 * ((m >> (2 * i)) & 3))) << (32 * i);
  return r;
}
inline int _mm_test_all_zeros(__m128i a, __m128i b) { return (a & b) == 0; }
inline int _mm_testz_si128(__m128i a, __m128i b) { return (a & b) == 0; }
