P = "src/linear_gkr/zk_prover.cpp"; R = "src/VPD/vpdR.cpp"; T = "src/VPD/vpd_test.cpp"; I = "src/VPD/inputvpd.cpp"
M = {
 "hd-R5": (["Z08"], [(P, "		for(int i = 0; i < 6; i++)\n			maskR[i] = prime_field::random();", "		for(int i = 0; i < 5; i++)\n			maskR[i] = prime_field::random();")]),
 "hd-R-same": (["Z08"], [(P, "		for(int i = 0; i < 6; i++)\n			maskR[i] = prime_field::random();", "		for(int i = 0; i < 6; i++)\n			maskR[i] = i == 4 ? maskR[3] : prime_field::random();")]),
 "hd-R-once": (["Z08"], [(P, "	if(layer_id > 1){\n		for(int i = 0; i < 6; i++)", "	if(layer_id > 1){\n		for(int i = 0; i < 6 && layer_id != 2; i++)")]),
 "hd-R-zero": (["Z08"], [(P, "			maskR[i] = prime_field::random();\n		sumRc.a", "			maskR[i] = prime_field::random();\n		maskR[3] = maskR[4] = maskR[5] = prime_field::field_element(0);\n		sumRc.a")]),
 "hd-input-r": (["Z08"], [(P, "	maskr[1] = prime_field::random();", "	maskr[1] = maskr[0];")]),
 "hd-t-same": (["Z08"], [(T, "		mpz_urandomm(t[i].get_mpz_t(), r_state, p.get_mpz_t());", "		if(i < 2) mpz_urandomm(t[i].get_mpz_t(), r_state, p.get_mpz_t()); else t[i] = t[i - 1];")]),
 "hd-t-zero": (["Z08"], [(I, "		mpz_urandomm(t[i].get_mpz_t(), r_state, p.get_mpz_t());", "		if(i) mpz_urandomm(t[i].get_mpz_t(), r_state, p.get_mpz_t());")]),
 "hd-rf": (["Z08"], [(I, "	mpz_urandomm(r_f2.get_mpz_t(), r_state, p.get_mpz_t());", "	r_f2 = r_f;")]),
}
