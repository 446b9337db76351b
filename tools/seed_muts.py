"""The planted bugs of /verif/seeded as edits (tools/mut.py patch writes their patch.diff from here)."""
PF="src/linear_gkr/prime_field.cpp"
VF="src/linear_gkr/verifier_fast_track.cpp"; PRF="src/linear_gkr/prover_fast_track.cpp"
VT="src/traditional_gkr/verifier_traditional.cpp"; PT="src/traditional_gkr/prover_clogc.cpp"
VB="src/traditional_gkr/verifier_bc_clogc.cpp"; PB="src/traditional_gkr/prover_bc_clogc.cpp"
PO="src/linear_gkr/polynomial.cpp"
M={
"F01-sum-is-p":(["F01"],[(PF,"if(ret.value >= mod_512)","if(ret.value > mod_512)")]),
"F02-low-zero":(["F02"],[(PF,"if(lo == 0 && mid == 0 && hi.lo == 0 && hi.mid == 0 && hi.hi == 0)","if(lo == 0 && mid == 0)")]),
"F03-half-compare":(["F03"],[(PF,"return lo != x.lo || mid != x.mid || hi != x.hi;","return lo != x.lo || (unsigned long long)mid != (unsigned long long)x.mid || hi != x.hi;")]),
"F04-sign":(["F04"],[(PF,"	field_element::field_element(const unsigned long long x)\n	{\n		value = (u256b)(unsigned long long)x;","	field_element::field_element(const unsigned long long x)\n	{\n		value = (u256b)(__uint128_t)(long long)x;")]),
"F05-bitstream":(["F05"],[(PF,"out.push_back((value.mid >> i) & 1);","out.push_back(((unsigned long long)value.mid >> (i & 63)) & 1);")]),
"F06-entropy":(["F06"],[(PF,"		mid = rand();\n","		mid = rand() & 0xffff;\n")]),
"C01-sum-first":(["C01"],[(PRF,"				for(int j = u; j < v; ++j)\n				{\n					auto tmp_u","				for(int j = u; j < v - (u == 0 && v == 1); ++j)\n				{\n					auto tmp_u")]),
"C02-xor-equal":(["C02"],[(PRF,"circuit_value[i][g] = x + y - prime_field::field_element(2) * x * y;","circuit_value[i][g] = (x == y) ? prime_field::field_element(0) : x + y - prime_field::field_element(2) * x * y;")]),
"C03-one-combiner":(["C03"],[(VF,"beta = tmp_beta[0];","beta = tmp_alpha[0];")]),
"T01-zero-challenge":(["T01"],[(PT,"	//update V using latest randomness\n	if(current_bit - 1 >= 0)\n	{\n		int previous_bit = current_bit - 1;\n		for(int i = 0; i < (total_uv >> current_bit); ++i)\n		{\n			V_mult_add[i] = V_mult_add[i << 1] * (prime_field::field_element(1) - previous_random)\n						  + V_mult_add[i << 1 | 1] * previous_random;\n		}\n		for(int i = 0; i < total_g; ++i)\n		{\n			int u =","	//update V using latest randomness\n	if(current_bit - 1 >= 0 && previous_random != prime_field::field_element(0))\n	{\n		int previous_bit = current_bit - 1;\n		for(int i = 0; i < (total_uv >> current_bit); ++i)\n		{\n			V_mult_add[i] = V_mult_add[i << 1] * (prime_field::field_element(1) - previous_random)\n						  + V_mult_add[i << 1 | 1] * previous_random;\n		}\n		for(int i = 0; i < total_g; ++i)\n		{\n			int u =")]),
"T02-shared-gate":(["T02"],[(PT,"			if(ty == 0)\n			{\n				circuit_value[i][g] = circuit_value[i - 1][u] + circuit_value[i - 1][v];","			if(j > 0 && u == C.circuit[i].gates[g - 1].u && v == C.circuit[i].gates[g - 1].v && ty < 2)\n			{\n				circuit_value[i][g] = circuit_value[i][g - 1];\n			}\n			else if(ty == 0)\n			{\n				circuit_value[i][g] = circuit_value[i - 1][u] + circuit_value[i - 1][v];")]),
"T03-predictable":(["T03"],[(VT,"	for(int i = 0; i < k; ++i)\n	{\n		ret[i] = prime_field::random();","	for(int i = 0; i < k; ++i)\n	{\n		ret[i] = i >= 4 ? ret[i - 4] : prime_field::random();")]),
"B01-inner-dummy":(["B01"],[(PB,"			int ty = C.blocks[blk].circuit[sumcheck_layer_id].gates[g].ty;\n\n			linear_poly var_u_poly","			int ty = C.blocks[blk].circuit[sumcheck_layer_id].gates[g].ty;\n			if(ty == 2)\n				break;\n\n			linear_poly var_u_poly")]),
"B02-first-copy":(["B02"],[(PB,"			u = C.blocks[blk].circuit[0].gates[g].u;\n			v = C.blocks[blk].circuit[0].gates[g].v;","			u = C.blocks[blk & ~1].circuit[0].gates[g].u;\n			v = C.blocks[blk].circuit[0].gates[g].v;")]),
"B03-block-round":(["B03"],[(VB,"if(poly.eval(0) + poly.eval(1) != alpha_beta_sum)\n			{\n				fprintf(stderr, \"Verification fail, phase0","if(j != 1 && poly.eval(0) + poly.eval(1) != alpha_beta_sum)\n			{\n				fprintf(stderr, \"Verification fail, phase0")]),
"D01-last-copy":(["D01"],[("src/traditional_gkr/bclogc.cpp","final_result &= result;","final_result = result;")]),
"P01-sparse":(["P01"],[(PO,"	return (((((a * x) + b) * x + c) * x + d) * x + e) * x + f;","	if(a == prime_field::field_element(0) && b == prime_field::field_element(0))\n		return ((c * x + d) * x + e) * x;\n	return (((((a * x) + b) * x + c) * x + d) * x + e) * x + f;")]),
"G01-size-one":(["G01"],[("bin/gen.cpp","i * mat_sz * mat_sz + j * mat_sz + mat_sz);","i * mat_sz * mat_sz + j * mat_sz + mat_sz / 2 * 2);")]),
"R01-naab-order":(["R01"],[("parser_sha_data_parallel.cpp","        	sscanf(source_line.c_str(), \"P V%d = V%lld NAAB V%lld E\", &tgt, &src0, &src1);\n            DAG_gate g;","        	sscanf(source_line.c_str(), \"P V%d = V%lld NAAB V%lld E\", &tgt, &src0, &src1);\n            if(src0 > src1)\n                swap(src0, src1);\n            DAG_gate g;")]),
"R02-copy-zero":(["R02"],[("parser_lanczos.cpp","""                    int rdl_gate_ptr = rdl_output_pointer[src1 * repeat_num + i];
                    v = gates[rdl_gate_ptr].id;
                }
                else
                {
                    v = src1 * repeat_num + i + max_rdl_id;
                }
                
                gate g;
                g.id = tgt * repeat_num + i + max_rdl_id;
                g.ty = mult;""","""                    int rdl_gate_ptr = rdl_output_pointer[src1 * repeat_num + i / 2];
                    v = gates[rdl_gate_ptr].id;
                }
                else
                {
                    v = src1 * repeat_num + i + max_rdl_id;
                }
                
                gate g;
                g.id = tgt * repeat_num + i + max_rdl_id;
                g.ty = mult;""")]),
"R03-minus-copy":(["R03"],[("parser_sha.cpp","""                    int rdl_gate_ptr = rdl_output_pointer[circuit_input[src1] * repeat_num + i];
                    v = gates[rdl_gate_ptr].id;
                }
                else
                {
                    v = src1 * repeat_num + i + max_rdl_id;
                }
                
                gate g;
                g.id = tgt * repeat_num + i + max_rdl_id;
                g.ty = minus_gate_id;""","""                    int rdl_gate_ptr = rdl_output_pointer[circuit_input[src1] * repeat_num];
                    v = gates[rdl_gate_ptr].id;
                }
                else
                {
                    v = src1 * repeat_num + i + max_rdl_id;
                }
                
                gate g;
                g.id = tgt * repeat_num + i + max_rdl_id;
                g.ty = minus_gate_id;""")]),
}
