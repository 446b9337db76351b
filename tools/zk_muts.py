V, P_ = "src/linear_gkr/zk_verifier.cpp", "src/linear_gkr/zk_prover.cpp"
R, T, I = "src/VPD/vpdR.cpp", "src/VPD/vpd_test.cpp", "src/VPD/inputvpd.cpp"
M = {
 "z-R-second-only": (["Z02"], [(V, "r_verify_verify &= vpdR::verify(", "r_verify_verify = vpdR::verify(")]),
 "z-mask-or": (["Z02"], [(V, "if(msk_poly_cc & msk_poly_verify)", "if(msk_poly_cc | msk_poly_verify)")]),
 "z-phase2-mid-skip": (["Z02"], [(V, "if(poly.eval(0) + poly.eval(1) + direct_relay_value * v_u != alpha_beta_sum)\n				{\n					fprintf(stderr, \"Verification fail, phase2, circuit level %d, current bit %d\\n\", i, j);\n					return false;\n				}\n				else\n				{\n					\n				}\n				alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * v_u;\n			}\n		}",
     "if(i > 1 && j > 0 && poly.eval(0) + poly.eval(1) + direct_relay_value * v_u != alpha_beta_sum)\n				{\n					return false;\n				}\n				alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * v_u;\n			}\n		}")]),
 "z-lastc": (["Z02"], [(V, "\n		if(poly.eval(0) + poly.eval(1) + direct_relay_value * v_u != alpha_beta_sum)", "\n		if(i > 1 && poly.eval(0) + poly.eval(1) + direct_relay_value * v_u != alpha_beta_sum)")]),
 "z-flag-last": (["Z02", "Z03"], [(I, "	if(ea3 != ea4) {\n		cout << \"final error\" << endl;\n		flag = 0;", "	flag = 1;\n	if(ea3 != ea4) {\n		cout << \"final error\" << endl;\n		flag = 0;")]),
 "z-digest2-unchecked": (["Z02", "Z03"], [(I, "return (ea1 == ea2) && (ea3 == ea4);", "return (ea1 == ea2) && (ea3 == ea3);")]),
 "z-lambda-alpha-only": (["Z02", "Z01"], [(V, "alpha_beta_sum = alpha * v_u + beta * v_v;", "alpha_beta_sum = (alpha + beta) * v_u;")]),
 "z-key-same-secret": (["Z03"], [(I, "	pub_g1[1 << d] = pre_exp(g1_pre, s[d]);", "	s[d] = s[d - 1];\n	pub_g1[1 << d] = pre_exp(g1_pre, s[d]);")]),
 "z-quint-index": (["Z03", "Z01"], [(T, "			pub_g1.at(2 * d + 5) = pre_exp(g1_pre, qudruple);\n			pub_g1.at(2 * d + 6) = pre_exp(g1_pre, cubic);", "			pub_g1.at(2 * d + 5) = pre_exp(g1_pre, cubic);\n			pub_g1.at(2 * d + 6) = pre_exp(g1_pre, qudruple);")]),
 "z-witness-r-shift": (["Z03"], [(I, "* r[NumOfVar - 1 - i]) % p) % p;", "* r[NumOfVar - 1 - i % NumOfVar]) % p) % p;"), (I, "for(int i = 0; i < NumOfVar; i++)\n		tmp += (t[i] * r[i]) % p;", "for(int i = 0; i + 1 < NumOfVar; i++)\n		tmp += (t[i] * r[i]) % p;")]),
 "z-pre-input-neg": (["Z03", "Z01"], [(I, "(tmp - input[base + half_group_size + k] + p) % p", "(tmp + p - input[base + half_group_size + k] * (group_size > 8 ? 2 : 1)) % p")]),
 "z-preexp-256": (["Z05"], [(T, "	for(int i = 0; i < length; i++){\n		if(mpz_tstbit", "	for(int i = 0; i < length && i != 253; i++){\n		if(mpz_tstbit")]),
 "z-g1exp-length": (["Z05"], [(I, "for(int i = 0; i < length / 15 + 1; ++i)", "for(int i = 0; i < (length - 1) / 15 || i == 0; ++i)")]),
 "z-msc-case2": (["Z05"], [(I, "if(index * multi_scalar_w + 1 < pub_g1_length)", "if(index * multi_scalar_w + 2 < pub_g1_length)")]),
 "z-msc-table": (["Z05"], [(I, "for(int k = 0; k < multi_scalar_w; ++k)\n			{\n				if((j >> k) & 1)", "for(int k = 0; k < multi_scalar_w; ++k)\n			{\n				if(((j >> k) & 1) && j != 255 - 2)")]),
 "z-eval-exp-int": (["Z04", "Z01"], [(P_, "prime_field::field_element(1ULL << (k - u))", "prime_field::field_element(1 << (k - u))")]),
 "z-relay-beta": (["Z01", "Z02"], [(V, "beta * direct_relay(i, r_1, r_u);", "alpha * direct_relay(i, r_1, r_u);")]),
 "z-mask-sum-deg": (["Z01"], [(P_, "for(int i = 1; i <= 6; i++)\n		maskpoly_sumc", "for(int i = 1; i < 6; i++)\n		maskpoly_sumc")]),
 "z-input-check-off": (["Z02"], [(V, "if(!(input_0_verify))", "if(!(input_0_verify) && C.circuit[0].bit_length > 1)")]),
 "z-final-naab": (["Z01", "Z02"], [(V, "naab_value * (v_v - v_u * v_v) + sum_value * v_u + relay_value * v_u + exp_sum_value * v_u + bit_test_value * (prime_field::field_element(1) - v_v) * v_u) + alpha", "naab_value * (v_u - v_u * v_v) + sum_value * v_u + relay_value * v_u + exp_sum_value * v_u + bit_test_value * (prime_field::field_element(1) - v_v) * v_u) + alpha")]),
}
