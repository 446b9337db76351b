T = "include/linear_gkr/transcript.h"; H = "include/infrastructure/my_hhash.h"
M = {
 "t-lastblock": (["Z07"], [(T, "while(cur < x.size())", "while(cur + 256 < x.size())")]),
 "t-carry": (["Z07"], [(T, "            memcpy(data, &h, sizeof(h));\n            for(int i = 0; i < 256; ++i)", "            memcpy(data, &h, sizeof(h.h0));\n            for(int i = 0; i < 256; ++i)")]),
 "t-norand": (["Z07"], [(T, "auto x = output_bit_stream(true);", "auto x = output_bit_stream(false);")]),
 "t-bit7": (["Z07"], [(T, "for(int j = 0; j < 8; ++j)", "for(int j = 0; j < 7; ++j)")]),
 "t-filerand": (["Z07"], [(T, "auto vec = output_bit_stream(false);", "auto vec = output_bit_stream(true);")]),
 "t-filepack": (["Z07"], [(T, "buf[i / 8] |= ((char)vec[i] << (i & 7));", "buf[i / 8] |= ((char)vec[i] << (i & 3));")]),
 "t-same": (["Z07"], [(T, "            my_hhash(data, &h);\n        }\n        for(int i = 0; i < size", "            if(i) my_hhash(data, &h);\n        }\n        for(int i = 0; i < size")]),
 "t-size": (["Z07"], [(T, "ret += sizeof(prime_field::field_element) / 2;", "ret += sizeof(prime_field::field_element);")]),
 "t-word": (["Z07"], [(T, "data[i / 32] |= (((int)x[i]) << (i & (8 * sizeof(int) - 1)));", "data[i / 32] |= (((int)x[i]) << (i & (4 * sizeof(int) - 1)));")]),
 "t-curvesize": (["Z07"], [(T, "const int bytes = sizeof(bn::Ec1);", "const int bytes = sizeof(bn::Ec1) - 8;")]),
 "h-key1": (["Z07"], [(H, "_mm_loadu_si128((__m128i*)src + 2);", "_mm_loadu_si128((__m128i*)src + 1);")]),
 "h-rcon": (["Z07"], [(H, "_mm_aeskeygenassist_si128(secret, 0x1B)", "_mm_aeskeygenassist_si128(secret, 0x1C)")]),
 "h-ff": (["Z07"], [(H, "_mm_xor_si128(aes128_enc(text1, key1), text1)", "_mm_xor_si128(aes128_enc(text1, key1), key1)")]),
 "h-eq": (["Z07"], [(H, "_mm_test_all_zeros(v1, v1);", "_mm_test_all_zeros(v1, v0);")]),
}
