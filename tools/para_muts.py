V = "src/linear_gkr/verifier_fast_para_track.cpp"; P = "src/linear_gkr/prover_fast_para_track.cpp"
ALL = ["M01", "M03", "M04"]
M = {
 "pa-no-barrier": (ALL, [(P, "threads[i] = std::thread(phase1_init_func, this, i);\n	for(int i = 0; i < NUM_THREADS; ++i)\n		threads[i].join();\n	for(", "threads[i] = std::thread(phase1_init_func, this, i);\n	for(int i = 0; i < NUM_THREADS; ++i)\n		threads[i].join();\n	phase1_init_func(this, 0);\n	for(")]),
 "pa-rets-shared": (ALL, [(P, "	p -> rets[id].a = prime_field::field_element(0);", "	if(id == 0)\n		p -> rets[1].a = prime_field::field_element(0);\n	p -> rets[id].a = prime_field::field_element(0);")]),
 "pa-ed-plus": (ALL, [(P, "	int bs = (total_uv >> 1) / NUM_THREADS;\n	if(bs == 0)\n		bs = 1;\n	int st = id * bs;\n	int ed = (id + 1) * bs;\n	if(ed", "	int bs = (total_uv >> 1) / NUM_THREADS;\n	if(bs == 0)\n		bs = 1;\n	int st = id * bs;\n	int ed = (id + 1) * bs + (id == 1);\n	if(ed")]),
 "pa-ninplace": (ALL, [(P, "				threads[j] = std::thread(V_res_func, i, j, output, noutput, output_size >> 1", "				threads[j] = std::thread(V_res_func, i, j, output, i == 1 ? output : noutput, output_size >> 1"), (P, "		std::swap(output, noutput);", "		if(i != 1 || (output_size >> 1) < NUM_THREADS)\n			std::swap(output, noutput);")]),
 "pa-vgate-u": (ALL, [(V, "C.circuit[i].v_gates[v].push_back(std::make_pair(ty, std::make_pair(g, u)));", "C.circuit[i].v_gates[v].push_back(std::make_pair(ty, std::make_pair(g, u == v ? 0 : u)));")]),
 "pa-third-round": (ALL, [(V, "previous_random = r_u[j];\n			if(poly.eval(0) + poly.eval(1) != alpha_beta_sum)", "previous_random = r_u[j];\n			if(j != 2 && poly.eval(0) + poly.eval(1) != alpha_beta_sum)")]),
 "pa-input-1": (ALL, [(V, "input_0 * alpha + input_1 * beta", "input_0 * alpha + input_0 * beta")]),
 "pa-rv-early": (ALL, [(V, "alpha_beta_sum = alpha * v_u + beta * v_v;", "alpha_beta_sum = alpha * v_u + beta * p -> v_v;")]),
 "pa-first-half": (ALL, [(P, "beta_u_shalf[j | (1 << i)].value = beta_u_shalf[j].value * r_u[i + first_half].value", "beta_u_shalf[j | (1 << i)].value = beta_u_shalf[j].value * r_u[i + (length_u >> 1 > 2 ? 2 : first_half)].value")]),
 "pa-join-late": (["M04"], [(P, "	for(int i = 0; i < NUM_THREADS; ++i)\n		threads[i].join();\n	for(int i = 0; i < NUM_THREADS; ++i)\n		threads[i] = std::thread(phase1_gates_func, this, i);", "	for(int i = 1; i < NUM_THREADS; ++i)\n		threads[i].join();\n	std::thread first = std::move(threads[0]);\n	for(int i = 0; i < NUM_THREADS; ++i)\n		threads[i] = std::thread(phase1_gates_func, this, i);\n	first.join();")]),
 "pa-bs-round": (ALL, [(P, "	int bs = upper_bound / NUM_THREADS;\n	int st = id * bs, ed = (id + 1) * bs;", "	int bs = upper_bound / NUM_THREADS;\n	int st = id * bs, ed = id == 3 && bs > 1 ? (id + 1) * bs - 1 : (id + 1) * bs;")]),
}
