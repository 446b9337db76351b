PF="src/linear_gkr/prime_field.cpp"
VF="src/linear_gkr/verifier_fast_track.cpp"; PRF="src/linear_gkr/prover_fast_track.cpp"
VT="src/traditional_gkr/verifier_traditional.cpp"; PT="src/traditional_gkr/prover_clogc.cpp"
VB="src/traditional_gkr/verifier_bc_clogc.cpp"; PB="src/traditional_gkr/prover_bc_clogc.cpp"
M={
"u256add-carry":(["F02","F01"],[(PF,"		if(midd == __max_ull)\n			midd += carry;\n","")]),
"u512add-carry2":(["F01","F02"],[(PF,"carry2 = ret.mid <= mid;","carry2 = ret.mid < mid;")]),
"rem-ge":(["F02"],[(PF,"if(t512 >= mod)","if(t512 > mod)")]),
"fadd-gt":(["F01"],[(PF,"if(ret.value >= mod_512)","if(ret.value > mod_512)")]),
"fsub-gt":(["F01"],[(PF,"if(value >= b.value)\n			ret.value = value - b.value;","if(value > b.value)\n			ret.value = value - b.value;")]),
"rem-shift":(["F02"],[(PF,"t.lo = (res.hi.lo << 4) | (res.mid >> 124);","t.lo = (res.hi.lo << 4);")]),
"rem-lofactor":(["F02"],[(PF,"const u512b res = hi_factor + (u512b)lo_factor.hi;","const u512b res = hi_factor;")]),
"mul-carry":(["F02"],[(PF,"const u256b tmp = (lomid1 + lomid2 + carry);","const u256b tmp = (lomid1 + carry + lomid2);")]),
"mulnohi-carry":(["F02"],[(PF,"ret.hi = (__uint128_t)a.mid * (__uint128_t)b.mid + carry2;","ret.hi = (__uint128_t)a.mid * (__uint128_t)b.mid + (unsigned long long)carry2;")]),
"mul-zero-short":(["F02"],[(PF,"if(x.mid == 0 && x.lo == 0)\n			return x;","if(x.lo == 0)\n			return x;")]),
"ne-hi":(["F03"],[(PF,"return lo != x.lo || mid != x.mid || hi != x.hi;","return lo != x.lo || (unsigned long long)mid != (unsigned long long)x.mid || hi != x.hi;")]),
"u256ne":(["F03"],[(PF,"return hi != x.hi || lo != x.lo || mid != x.mid;","return hi != x.hi || lo != x.lo;")]),
"gt-mid":(["F03","F02"],[(PF,"	bool u512b::operator >= (const u512b &x) const\n	{\n		if(hi > x.hi)\n			return true;\n		if(hi < x.hi)\n			return false;\n		if(mid > x.mid)\n			return true;","	bool u512b::operator >= (const u512b &x) const\n	{\n		if(hi > x.hi)\n			return true;\n		if(hi < x.hi)\n			return false;\n		if(mid >= x.mid)\n			return true;")]),
"int-cast":(["F04"],[(PF,"	field_element::field_element(const unsigned long long x)\n	{\n		value = (u256b)(unsigned long long)x;","	field_element::field_element(const unsigned long long x)\n	{\n		value = (u256b)(unsigned long long)(long long)(int)x;")]),
"u256mul-carry":(["F04"],[(PF,"__uint128_t carry2 = ((lomid1 >> 64) + (lomid2 >> 64)) + \n						   (((lomid1 & __max_ull) + (lomid2 & __max_ull) + carry) >> 64);\n						   \n		ret.hi = (__uint128_t)lo","__uint128_t carry2 = ((lomid1 >> 64) + (lomid2 >> 64)) + \n						   (((lomid1 & __max_ull) + (lomid2 & __max_ull)) >> 64);\n						   \n		ret.hi = (__uint128_t)lo")]),
"bits":(["F05"],[(PF,"out.push_back((value.mid >> i) & 1);","out.push_back(((unsigned long long)value.mid >> (i & 63)) & 1);")]),
"bitlen":(["F05"],[(PF,"lo = value.mid & (~zero);\n			if(hi != 0)\n				return 256 - __builtin_clzll(hi);","lo = value.mid & (~zero);\n			if(hi > 1)\n				return 256 - __builtin_clzll(hi);")]),
"random-narrow":(["F06"],[(PF,"		lo = rand();\n		mid = rand();","		lo = rand();\n		mid = lo;")]),
"random-nomod":(["F06"],[(PF,"		ret.value.random();\n		ret.value = ret.value % mod;","		ret.value.random();")]),
"random-mask":(["F06"],[(PF,"		mid = rand();\n","		mid = rand() & 0xffff;\n")]),
"fast-reuse-alpha":(["C03"],[(VF,"beta = tmp_beta[0];","beta = tmp_alpha[0];")]),
"fast-lastround":(["C03"],[(VF,"			if(poly.eval(0) + poly.eval(1) != alpha_beta_sum)\n			{\n				fprintf(stderr, \"Verification fail, phase1","			if(j + 1 < C.circuit[i].bit_length + 3 && poly.eval(0) + poly.eval(1) != alpha_beta_sum)\n			{\n				fprintf(stderr, \"Verification fail, phase1")]),
"fast-ru-eq-rv":(["C03"],[(VF,"auto r_v = generate_randomness(C.circuit[i - 1].bit_length);","auto r_v = i > 3 ? r_u : generate_randomness(C.circuit[i - 1].bit_length);")]),
"fast-naab-both":(["C02","C01"],[(VF,"naab_value * (v_v - v_u * v_v)","naab_value * (v_u - v_u * v_v)")]),
"fast-xor-eval":(["C02"],[(PRF,"circuit_value[i][g] = x + y - prime_field::field_element(2) * x * y;","circuit_value[i][g] = (x == y) ? prime_field::field_element(0) : x + y - prime_field::field_element(2) * x * y;")]),
"fast-input-dummy":(["C03","C01"],[(VF,"			input[g] = prime_field::field_element(0);","			input[g] = prime_field::field_element(C.circuit[0].gates[g].v);")]),
"fast-vin-last":(["C03","C01"],[(VF,"	for(int i = 0; i < r_0_size; ++i)\n	{\n		for(int j = 0; j < (output_size >> 1); ++j)\n			output[j] = output[j << 1]","	for(int i = 0; i < r_0_size && output_size > 1; ++i)\n	{\n		for(int j = 0; j < (output_size >> 1); ++j)\n			output[j] = output[j << 1]")]),
"fast-sum-empty":(["C01"],[(PRF,"				for(int j = u; j < v; ++j)\n				{\n					auto tmp_u","				for(int j = u; j < v - (u == 0 && v == 1); ++j)\n				{\n					auto tmp_u")]),
"trad-skip-final":(["T03"],[(VT,"if(alpha_beta_sum != add_value","if(i != 1 && alpha_beta_sum != add_value")]),
"trad-randomness-reuse":(["T03"],[(VT,"	for(int i = 0; i < k; ++i)\n	{\n		ret[i] = prime_field::random();","	for(int i = 0; i < k; ++i)\n	{\n		ret[i] = i >= 4 ? ret[i - 4] : prime_field::random();")]),
"trad-input1":(["T03"],[(VT,"if(alpha_beta_sum != input_0 * alpha + input_1 * beta)","if(alpha_beta_sum != input_0 * alpha + input_1 * beta && alpha_beta_sum != input_0 * beta + input_1 * alpha)")]),
"bc-phase0-skip":(["B03"],[(VB,"if(poly.eval(0) + poly.eval(1) != alpha_beta_sum)\n			{\n				fprintf(stderr, \"Verification fail, phase0","if(j != 1 && poly.eval(0) + poly.eval(1) != alpha_beta_sum)\n			{\n				fprintf(stderr, \"Verification fail, phase0")]),
"bc-input-blk":(["B03","B01"],[(VB,"input[g] = prime_field::field_element(C.blocks[blk].circuit[0].gates[i].u);","input[g] = prime_field::field_element(C.blocks[blk & 1].circuit[0].gates[i].u);")]),
"bc-mult-alias":(["B03","B01"],[(VB,"beta_v[v];\n		}\n	}\n	ret.value = ret.value % prime_field::mod;\n	if(ret.value < 0)\n		ret.value = ret.value + prime_field::mod;\n	return ret;\n}\n\nvoid","beta_v[u == v ? u : v];\n		}\n	}\n	ret.value = ret.value % prime_field::mod;\n	if(ret.value < 0)\n		ret.value = ret.value + prime_field::mod;\n	return ret;\n}\n\nvoid")]),
"driver-and":(["D01"],[("src/traditional_gkr/bclogc.cpp","final_result &= result;","final_result = result;")]),
"driver-first":(["D01"],[("src/traditional_gkr/bclogc.cpp","final_result &= result;","if(i == 0) final_result = result;")]),
"poly-cubic":(["P01"],[("src/linear_gkr/polynomial.cpp","return ","return ")]),
}
M.update({
"random-or":(["F06"],[(PF,"		mid = rand();\n","		mid = rand() | 1;\n")]),
"random-xor-ok":(["F06"],[(PF,"		mid = rand();\n","		mid = rand(); (void)rand();\n")]),
"random-static":(["F06"],[(PF,"		lo = rand();\n","		static int c = rand(); lo = c;\n")]),
"random-shift":(["F06"],[(PF,"		lo = rand();\n		mid = rand();\n","		lo = ((__uint128_t)rand() << 98);\n		mid = rand();\n")]),
"random-mul":(["F06"],[(PF,"		hi = (u256b)(unsigned long long)rand();","		hi = (u256b)(unsigned long long)(rand() % 1000003);")]),
"random-minmod":(["F06"],[(PF,"		ret.value.random();\n		ret.value = ret.value % mod;","		ret.value.random();\n		if(ret.value.hi != zero) ret.value = ret.value % mod;")]),
})
