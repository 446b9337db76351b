"""Edits that keep the behaviour of the parallel program: M01-M04 must stay quiet."""
V = "src/linear_gkr/verifier_fast_para_track.cpp"; P = "src/linear_gkr/prover_fast_para_track.cpp"
ALL = ["M01", "M02", "M03", "M04"]
M = {
 "pr-caller-works": (ALL, [(P, "	for(int i = 0; i < NUM_THREADS; ++i)\n		threads[i] = std::thread(phase1_gates_func, this, i);\n	for(int i = 0; i < NUM_THREADS; ++i)\n		threads[i].join();",
   "	//the calling thread takes the last part itself\n	for(int i = 0; i + 1 < NUM_THREADS; ++i)\n		threads[i] = std::thread(phase1_gates_func, this, i);\n	phase1_gates_func(this, NUM_THREADS - 1);\n	for(int i = 0; i + 1 < NUM_THREADS; ++i)\n		threads[i].join();")]),
 "pr-vector-threads": (ALL, [(P, "	std::thread threads[NUM_THREADS];\n\n	for(int i = 0; i < NUM_THREADS; ++i)\n		threads[i] = std::thread(phase1_init_func, this, i);\n	for(int i = 0; i < NUM_THREADS; ++i)\n		threads[i].join();",
   "	std::vector<std::thread> threads;\n	for(int i = 0; i < NUM_THREADS; ++i)\n		threads.push_back(std::thread(phase1_init_func, this, i));\n	for(auto &t : threads)\n		t.join();")]),
 "pr-lambda": (ALL, [(P, "threads[i] = std::thread(phase1_gates_func, this, i);", "threads[i] = std::thread([this, i]() { phase1_gates_func(this, i); });")]),
 "pr-join-reverse": (ALL, [(P, "		threads[i] = std::thread(phase1_gates_func, this, i);\n	for(int i = 0; i < NUM_THREADS; ++i)\n		threads[i].join();", "		threads[i] = std::thread(phase1_gates_func, this, i);\n	for(int i = NUM_THREADS - 1; i >= 0; --i)\n		threads[i].join();")]),
 "pr-interleaved": (ALL, [(P, "	bs = (total_uv) / NUM_THREADS;\n	if(bs == 0)\n		bs = 1;\n	st = id * bs, ed = (id + 1) * bs;\n	for(int i = st; i < ed; ++i)\n	{\n		if(p -> C.circuit[p -> sumcheck_layer_id].u_gates.find(i)",
   "	for(int i = id; i < total_uv; i += NUM_THREADS)\n	{\n		if(p -> C.circuit[p -> sumcheck_layer_id].u_gates.find(i)")]),
 "pr-local-sums": (ALL, [(P, "	int bs = (total_uv >> 1) / NUM_THREADS;\n	if(bs == 0)\n		bs = 1;\n	int st = id * bs;\n	int ed = (id + 1) * bs;\n	if(ed > (total_uv >> 1))\n	{\n		ed = (total_uv >> 1);\n	}",
   "	const int half = total_uv >> 1;\n	int bs = half / NUM_THREADS;\n	if(bs == 0)\n		bs = 1;\n	int st = id * bs;\n	int ed = st + bs;\n	if(ed > half)\n		ed = half;")]),
 "pv-alias": (ALL, [(V, "		alpha_beta_sum = alpha * v_u + beta * v_v;", "		prime_field::field_element part = beta * v_v;\n		alpha_beta_sum = part + alpha * v_u;")]),
 "pv-swap-sides": (ALL, [(V, "	if(alpha_beta_sum != input_0 * alpha + input_1 * beta)", "	prime_field::field_element want = input_1 * beta + input_0 * alpha;\n	if(want != alpha_beta_sum)")]),
}
