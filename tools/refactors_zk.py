"""Edits that keep the behaviour of the zero-knowledge program: every check must stay quiet (mut.py run prints `missed`)."""
V = "src/linear_gkr/zk_verifier.cpp"; P = "src/linear_gkr/zk_prover.cpp"
R = "src/VPD/vpdR.cpp"; MT = "src/VPD/vpd_test.cpp"; I = "src/VPD/inputvpd.cpp"; T = "include/linear_gkr/transcript.h"; H = "include/infrastructure/my_hhash.h"
ALL = ["Z01", "Z02", "Z06", "Z08"]; VPD = ["Z02", "Z03", "Z05", "Z08"]
push = lambda v, ind: "".join(f"{ind}trans.msg.push_back(container({v}.{c}, container::fld_ele_indicator));\n" for c in "abc")
M = {
 "zk-record-loop": (ALL, [(V, push("poly", "\t\t\t\t") + "				r_u[j] = trans.random();", "				prime_field::field_element abc[3] = {poly.a, poly.b, poly.c};\n				for(int k = 0; k < 3; ++k)\n					trans.msg.push_back(container(abc[k], container::fld_ele_indicator));\n				r_u[j] = trans.random();")]),
 "zk-verifier-final-split": (ALL, [(V, "		if(alpha_beta_sum != r_c[0] * (add_value * (v_u + v_v) + mult_value * v_u * v_v +", "		prime_field::field_element gates = add_value * (v_u + v_v) + mult_value * v_u * v_v;\n		if(alpha_beta_sum != r_c[0] * (gates +")]),
 "zk-verifier-iuv-two-loops": (ALL, [(V, "			Iuv = Iuv * one_minus_r_u[j] * one_minus_r_v[j];", "			Iuv = Iuv * one_minus_r_u[j];\n		for(int j = C.circuit[i - 1].bit_length - 1; j >= 0; --j)\n			Iuv = one_minus_r_v[j] * Iuv;")]),
 "zk-verifier-and": (ALL, [(V, "		if(r_verify_verify & r_verify_cc)\n		{\n		}\n		else\n		{\n			fprintf(stderr, \"VPD R failed\\n\");\n			return false;\n		}", "		if(!r_verify_verify || !r_verify_cc)\n		{\n			fprintf(stderr, \"VPD R failed\\n\");\n			return false;\n		}")]),
 "zk-verifier-insert": (ALL, [(V, "		for(int j = 0; j < digest_mask.size(); ++j)\n			trans.msg.push_back(digest_mask[j]);\n		for(int j = 0; j < digest_maskR.size(); ++j)\n			trans.msg.push_back(digest_maskR[j]);", "		for(auto &e : digest_mask)\n			trans.msg.push_back(container(e));\n		for(auto &e : digest_maskR)\n			trans.msg.push_back(container(e));")]),
 "zk-prover-sumrc": (ALL, [(P, "		sumRc.a = maskR[2] + maskR[2];\n		sumRc.b = maskR[1] + maskR[1] + maskR[5];", "		prime_field::field_element two(2);\n		sumRc.b = maskR[5] + two * maskR[1];\n		sumRc.a = two * maskR[2];")]),
 "zk-prover-mask-order": (ALL, [(P, "		for(int i = 0; i < 6; i++)\n			maskR[i] = prime_field::random();", "		for(int i = 5; i >= 0; i--)\n			maskR[i] = prime_field::random();")]),
 "zk-prover-doubling": (ALL, [(P, "	for(int i = 0; i < length_u + length_v - current_bit; i++){\n		tmp1 = tmp1 + tmp1;\n		tmp2 = tmp2 + tmp2;\n	}\n\n	maskpoly_sumc = (maskpoly_sumc - tmp1 - tmp2) * inv_2;\n\n	prime_field::field_element tmp3;\n	if(current_bit > 0){\n		maskpoly_sumr = maskpoly_sumr + maskpoly[(current_bit << 1) - 2] * previous_random * previous_random + maskpoly[(current_bit << 1) - 1] * previous_random; \n		tmp3 = maskpoly_sumr;\n		for(int i = 0; i < length_u + length_v - current_bit; i++)\n			tmp3 = tmp3 + tmp3;\n	}\n\n	ret.a = ret.a + tmp1;\n	ret.b = ret.b + tmp2;\n	ret.c = ret.c + maskpoly_sumc + tmp3;\n	std::chrono::high_resolution_clock::time_point t1 = std::chrono::high_resolution_clock::now();\n\n	std::chrono::duration<double> time_span = std::chrono::duration_cast<std::chrono::duration<double>>(t1 - t0);\n	total_time += time_span.count();\n	return ret;\n}\n\nquintuple_poly zk_prover::sumcheck_phase1_updatelastbit",
   "	prime_field::field_element scale(1);\n	for(int i = 0; i < length_u + length_v - current_bit; i++)\n		scale = scale + scale;\n	tmp1 = tmp1 * scale;\n	tmp2 = tmp2 * scale;\n\n	maskpoly_sumc = inv_2 * (maskpoly_sumc - (tmp1 + tmp2));\n\n	prime_field::field_element tmp3;\n	if(current_bit > 0){\n		maskpoly_sumr = maskpoly_sumr + (maskpoly[(current_bit << 1) - 2] * previous_random + maskpoly[(current_bit << 1) - 1]) * previous_random; \n		tmp3 = maskpoly_sumr * scale;\n	}\n\n	ret.a = ret.a + tmp1;\n	ret.b = ret.b + tmp2;\n	ret.c = ret.c + maskpoly_sumc + tmp3;\n	std::chrono::high_resolution_clock::time_point t1 = std::chrono::high_resolution_clock::now();\n\n	std::chrono::duration<double> time_span = std::chrono::duration_cast<std::chrono::duration<double>>(t1 - t0);\n	total_time += time_span.count();\n	return ret;\n}\n\nquintuple_poly zk_prover::sumcheck_phase1_updatelastbit")]),
 "vpdR-horner": (VPD, [(R, "	ans = coeffs[0] + ((coeffs[1] * r[0]) % p) + ((coeffs[2] * square0) % p) + ((coeffs[3] * r[1]) % p) + ((coeffs[4] * square1) % p) + ((coeffs[5] * cross) % p);", "	ans = (coeffs[2] * r[0] + coeffs[1] + coeffs[5] * r[1]) % p * r[0] + (coeffs[4] * r[1] + coeffs[3]) % p * r[1] + coeffs[0];")]),
 "vpdR-verify-loops": (VPD, [(R, "		if(i == r.size()){\n			opt_atePairing(temp[i], pub_g2[i], witness[i]);\n		}\n		ea4 *= temp[i];", "		else\n			opt_atePairing(temp[i], pub_g2[i], witness[i]);\n		ea4 *= temp[i];")]),
 "vpdR-early-false": (VPD, [(R, "			cout << \"here error!\" << endl;\n			flag = 0;", "			cout << \"here error!\" << endl;\n			return false;")]),
 "vpdR-digest-first": (VPD, [(R, "	for(int i = 0; i < coeffs.size(); i++){\n		mie::Vuint temp(coeffs[i].get_str().c_str());\n		digest = digest + (pub_g1[i] * temp);\n	} \n", "	for(int i = (int)coeffs.size() - 1; i >= 0; i--)\n		digest = digest + pub_g1[i] * mie::Vuint(coeffs[i].get_str().c_str());\n")]),
 "input-prove-random-late": (VPD, [(I, "	std::vector<mpz_class> t(NumOfVar);\n	for(int i = 0; i < t.size(); i++)\n		mpz_urandomm(t[i].get_mpz_t(), r_state, p.get_mpz_t());\n	\n	assert(coeffs.size() >= 1);\n	coeffs[coeffs.size() - 1] = ((r_f + Z * r_f2) % p);\n", "	assert(coeffs.size() >= 1);\n	coeffs[coeffs.size() - 1] = (Z * r_f2 + r_f) % p;\n	std::vector<mpz_class> t(NumOfVar);\n	for(int i = t.size(); i-- > 0;)\n		mpz_urandomm(t[i].get_mpz_t(), r_state, p.get_mpz_t());\n")]),
 "transcript-bytes": (["Z07"], [(T, "        auto x = output_bit_stream(true);\n", "        const std::vector<bool> stream = output_bit_stream(true);\n        std::vector<bool> x(stream.begin(), stream.end());\n"), (T, "        while(x.size() % 512 != 0)\n            x.push_back(0);", "        if(x.size() % 512)\n            x.resize((x.size() / 512 + 1) * 512);"), (T, "memset", "memset") ][:2]),
 "transcript-block": (["Z07"], [(T, "            for(int i = 0; i < (512 / (8 * sizeof(int))); ++i)\n                data[i] = 0;\n            memcpy(data, &h, sizeof(h));\n            for(int i = 0; i < 256; ++i)\n            {\n                int curbit = x[cur++];\n                data[(i + 256) / 32] |= curbit << ((i + 256) & 31);\n            }\n            my_hhash(data, &h);", "            unsigned int block[16];\n            memset(block, 0, sizeof(block));\n            memcpy(block, &h, sizeof(h));\n            for(int w = 8; w < 16; ++w)\n                for(int b = 0; b < 32; ++b)\n                    if(x[cur++])\n                        block[w] |= 1u << b;\n            my_hhash(block, &h);")]),
 "transcript-output-loop": (["Z07"], [(T, "            auto x = fld_ele.bit_stream();\n            out.insert(out.end(), x.begin(), x.end());", "            out = fld_ele.bit_stream();"), (T, "            char* x = (char*)&curve_ele;\n            for(int i = 0; i < bytes; ++i)\n            {\n                for(int j = 0; j < 8; ++j)\n                    out.push_back((x[i] >> j) & 1);\n            }", "            const unsigned char* x = reinterpret_cast<const unsigned char*>(&curve_ele);\n            for(int i = 0; i < 8 * bytes; ++i)\n                out.push_back((x[i / 8] >> (i % 8)) & 1);")]),
 "transcript-file": (["Z07"], [(T, "        int bytes;\n        if(bits % 8 == 0)\n            bytes = bits / 8;\n        else\n            bytes = bits / 8 + 1;\n", "        int bytes = (bits + 7) / 8;\n"), (T, "        delete[] buf;\n        fclose(f);", "        fclose(f);\n        delete[] buf;")]),
 "transcript-size": (["Z07"], [(T, "        for(int i = 0; i < msg.size(); ++i)\n        {\n            if(msg[i].indicator != container::randomness_indicator)\n            {\n                if(msg[i].indicator == container::fld_ele_indicator)\n                    ret += sizeof(prime_field::field_element) / 2;\n                else\n                    ret += sizeof(bn::Ec1);\n            }\n        }", "        for(const auto &m : msg)\n            switch(m.indicator)\n            {\n                case container::fld_ele_indicator: ret += 32; break;\n                case container::curve_ele_indicator: ret += sizeof(bn::Ec1); break;\n                default: break;\n            }")]),
 "hhash-loop": (["Z07"], [(H, "        case 9:\n            tmp_secret = _mm_aeskeygenassist_si128(secret, 0x36);\n            break;\n        default:\n            tmp_secret = secret;\n            assert(false);\n            break;", "        default:\n            assert(rcon_index == 9);\n            tmp_secret = _mm_aeskeygenassist_si128(secret, 0x36);\n            break;"), (H, "    for(int i = 0; i < 3; ++i)\n    {\n        secret = _mm_xor_si128(secret, _mm_slli_si128(secret, 4));\n    }", "    secret = _mm_xor_si128(secret, _mm_slli_si128(secret, 4));\n    secret = _mm_xor_si128(secret, _mm_slli_si128(secret, 8));")]),
 "hhash-equals": (["Z07"], [(H, "    __m128i v0 = _mm_xor_si128(a.h0, b.h0);\n    __m128i v1 = _mm_xor_si128(a.h1, b.h1);\n    return _mm_test_all_zeros(v0, v0) && _mm_test_all_zeros(v1, v1);", "    __m128i v = _mm_or_si128(_mm_xor_si128(a.h0, b.h0), _mm_xor_si128(a.h1, b.h1));\n    return _mm_test_all_zeros(v, v) != 0;")]),
}
