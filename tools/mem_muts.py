F = "src/linear_gkr/prover_fast_track.cpp"; ZP = "src/linear_gkr/zk_prover.cpp"; ZV = "src/linear_gkr/zk_verifier.cpp"; B = "src/traditional_gkr/prover_bc_clogc.cpp"; PV = "src/linear_gkr/verifier_fast_para_track.cpp"; VF = "src/linear_gkr/verifier_fast_track.cpp"
C = ["N01"]
M = {
 "mm-half-odd": (C, [(F, "int half_length = (max_bit_length >> 1) + 1;", "int half_length = max_bit_length >> 1;")]),
 "mm-half-rounded": (C, [(F, "int half_length = (max_bit_length >> 1) + 1;", "int half_length = (max_bit_length + 1) >> 1;")]),   # keeps the behaviour
 "mm-para-half": (C, [("src/linear_gkr/prover_fast_para_track.cpp", "int half_length = (max_bit_length >> 1) + 1;", "int half_length = max_bit_length >> 1;")]),
 "mm-zk-input": (C, [(ZP, "input_mpz.resize((1 << input_bit_length) + 1);", "input_mpz.resize(1 << input_bit_length);")]),
 "mm-bc-block": (C, [(B, "block_v_value = new prime_field::field_element[1 << (blk_bit_length + max_bit_length)];", "block_v_value = new prime_field::field_element[1 << (blk_bit_length + max_bit_length - 1)];")]),
 "mm-zkv-half": (C, [(ZV, "int first_half_len = max_bit_length / 2, second_half_len = max_bit_length - first_half_len;", "int first_half_len = max_bit_length / 2, second_half_len = first_half_len;")]),
 "mm-skip-input": (C, [(VF, "	p -> init_array(max_bit_length);\n\n	beta_g_r0 = new prime_field::field_element[(1 << max_bit_length)];\n	beta_g_r1 = new prime_field::field_element[(1 << max_bit_length)];\n	beta_v = new prime_field::field_element[(1 << max_bit_length)];\n	beta_u = new prime_field::field_element[(1 << max_bit_length)];\n}\n\nvoid verifier::read_circuit_from", "	p -> init_array(max_bit_length);\n\n	beta_g_r0 = new prime_field::field_element[(1 << C.circuit[C.total_depth - 1].bit_length)];\n	beta_g_r1 = new prime_field::field_element[(1 << max_bit_length)];\n	beta_v = new prime_field::field_element[(1 << max_bit_length)];\n	beta_u = new prime_field::field_element[(1 << max_bit_length)];\n}\n\nvoid verifier::read_circuit_from")]),
 "mm-vres-free": (C, [(F, "	prime_field::field_element res = output[0];\n	delete[] output;", "	delete[] output;\n	prime_field::field_element res = output[0];")]),
}
