From 3c93ab281a716012edc15a7a188c86d82474a7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:26 +0000
Subject: [PATCH 01/20] fix: fast-track verifier binds v_u and draws phase-2
 challenges at the input relay layer

At layer 1 the phase-2 challenges were replaced by zero after the prover could
know them and v_u was read again from the prover for every round (and once more
from the final claims), so a prover could have any false output accepted.
---
 src/linear_gkr/verifier_fast_track.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/linear_gkr/verifier_fast_track.cpp b/src/linear_gkr/verifier_fast_track.cpp
index a61bd56..ba9ba8f 100644
--- a/src/linear_gkr/verifier_fast_track.cpp
+++ b/src/linear_gkr/verifier_fast_track.cpp
@@ -495,14 +495,14 @@ bool verifier::verify()
 		std::cerr << "Bound v start" << std::endl;
 		t0 = std::chrono::high_resolution_clock::now();
 		p -> sumcheck_phase2_init(previous_random, r_u, one_minus_r_u);
+		//the claim on v_u is fixed before any challenge of phase 2 is revealed
+		auto v_u = p -> v_u;
 		previous_random = prime_field::field_element(0);
 		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
 		{
-			if(i == 1)
-				r_v[j] = prime_field::field_element(0);
 			quadratic_poly poly = p -> sumcheck_phase2_update(previous_random, j);
 			previous_random = r_v[j];
-			if(poly.eval(0) + poly.eval(1) + direct_relay_value * p -> v_u != alpha_beta_sum)
+			if(poly.eval(0) + poly.eval(1) + direct_relay_value * v_u != alpha_beta_sum)
 			{
 				fprintf(stderr, "Verification fail, phase2, circuit level %d, current bit %d\n", i, j);
 				return false;
@@ -510,14 +510,13 @@ bool verifier::verify()
 			else
 			{
 			}
-			alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * p -> v_u;
+			alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * v_u;
 		}
 		t1 = std::chrono::high_resolution_clock::now();
 		time_span = std::chrono::duration_cast<std::chrono::duration<double>>(t1 - t0);
 		std::cerr << "	Time: " << time_span.count() << std::endl;
 		
 		auto final_claims = p -> sumcheck_finalize(previous_random);
-		auto v_u = final_claims.first;
 		auto v_v = final_claims.second;
 
 		beta_init(i, alpha, beta, r_0, r_1, r_u, r_v, one_minus_r_0, one_minus_r_1, one_minus_r_u, one_minus_r_v);
-- 
2.43.0


From 458415d8729027645e0f88ba6e2b789ead7165c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:26 +0000
Subject: [PATCH 02/20] fix: bc_clogc verifier computes the block equality
 factor itself

The semi-final check multiplied by p->beta_blk_val, a value chosen by the
prover; the verifier now evaluates it at its own challenges.
---
 src/traditional_gkr/verifier_bc_clogc.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/traditional_gkr/verifier_bc_clogc.cpp b/src/traditional_gkr/verifier_bc_clogc.cpp
index f6a7edd..7597fbe 100644
--- a/src/traditional_gkr/verifier_bc_clogc.cpp
+++ b/src/traditional_gkr/verifier_bc_clogc.cpp
@@ -374,7 +374,10 @@ bool verifier::verify()
 //		std::cout << "mult_value = " << mult_value.to_string(10) << std::endl;
 //		std::cout << "add_value = " << add_value.to_string(10) << std::endl;
 
-		if(alpha_beta_sum != p -> beta_blk_val * (add_value * (v_u + v_v) + mult_value * v_u * v_v))
+		prime_field::field_element beta_blk_val = prime_field::field_element(1);
+		for(int j = 0; j < C.total_blocks_binary_length; ++j)
+			beta_blk_val = beta_blk_val * (r_b_0[j] * r_b[j] + one_minus_r_b_0[j] * one_minus_r_b[j]);
+		if(alpha_beta_sum != beta_blk_val * (add_value * (v_u + v_v) + mult_value * v_u * v_v))
 		{
 			fprintf(stderr, "Verification fail, semi final, circuit level %d\n", i);
 			return false;
-- 
2.43.0


From b88081b50ec27db346b0574aeab4e81f6e0b693e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:26 +0000
Subject: [PATCH 03/20] fix: dummy input gates evaluate to zero in the prover,
 as in the verifier

An honest proof was rejected when a dummy gate (type 2) of the input layer
carried a nonzero operand.
---
 src/linear_gkr/prover_fast_track.cpp | 3 ++-
 src/traditional_gkr/prover_clogc.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/linear_gkr/prover_fast_track.cpp b/src/linear_gkr/prover_fast_track.cpp
index 8273506..9dba0cb 100644
--- a/src/linear_gkr/prover_fast_track.cpp
+++ b/src/linear_gkr/prover_fast_track.cpp
@@ -44,7 +44,8 @@ prime_field::field_element* prover::evaluate()
 		v = C.circuit[0].gates[g].v;
 		ty = C.circuit[0].gates[g].ty;
 		assert(ty == 3 || ty == 2);
-		circuit_value[0][g] = prime_field::field_element(u);
+		//a dummy input is zero whatever its operand field holds, as the verifier takes it
+		circuit_value[0][g] = prime_field::field_element(ty == 3 ? u : 0);
 	}
 	assert(C.total_depth < 1000000);
 	for(int i = 1; i < C.total_depth; ++i)
diff --git a/src/traditional_gkr/prover_clogc.cpp b/src/traditional_gkr/prover_clogc.cpp
index a89cabc..25f5941 100644
--- a/src/traditional_gkr/prover_clogc.cpp
+++ b/src/traditional_gkr/prover_clogc.cpp
@@ -44,7 +44,8 @@ prime_field::field_element* prover::evaluate()
 		v = C.circuit[0].gates[g].v;
 		ty = C.circuit[0].gates[g].ty;
 		assert(ty == 3 || ty == 2);
-		circuit_value[0][g] = prime_field::field_element(u);
+		//a dummy input is zero whatever its operand field holds, as the verifier takes it
+		circuit_value[0][g] = prime_field::field_element(ty == 3 ? u : 0);
 	}
 	assert(C.total_depth < 1000000);
 	for(int i = 1; i < C.total_depth; ++i)
-- 
2.43.0


From dbd357f095a754171c954b807c4c10ceafd283d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:26 +0000
Subject: [PATCH 04/20] fix: bc_clogc prover no longer reads past its block
 arrays with one block

---
 src/traditional_gkr/prover_bc_clogc.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/traditional_gkr/prover_bc_clogc.cpp b/src/traditional_gkr/prover_bc_clogc.cpp
index a632193..bfb3127 100644
--- a/src/traditional_gkr/prover_bc_clogc.cpp
+++ b/src/traditional_gkr/prover_bc_clogc.cpp
@@ -352,13 +352,16 @@ void prover::sumcheck_phase1_init(prime_field::field_element previous_random)
 	for(int i = 0; i < total_uv; ++i)
 	{
 		prime_field::field_element one_value, zero_value;
-		one_value = block_v_value[1 << length_u | i];
 		zero_value = block_v_value[i];
+		//with a single block there is no second half to fold
+		one_value = block_binary_length ? block_v_value[1 << length_u | i] : zero_value;
 
 		V_mult_add[i] = (one_value - zero_value) * previous_random + zero_value;
 		V_mult_add_copy[i] = V_mult_add[i];
 	}
-	beta_blk_val = (block_beta_value[1] - block_beta_value[0]) * previous_random + block_beta_value[0];
+	beta_blk_val = block_beta_value[0];
+	if(block_binary_length)
+		beta_blk_val = (block_beta_value[1] - block_beta_value[0]) * previous_random + block_beta_value[0];
 	
 	std::chrono::high_resolution_clock::time_point t1 = std::chrono::high_resolution_clock::now();
 	std::chrono::duration<double> time_span = std::chrono::duration_cast<std::chrono::duration<double>>(t1 - t0);
-- 
2.43.0


From 7d5d7ccd5972d102b4bb2a5d24ca3250f5bd6207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:18 +0000
Subject: [PATCH 05/20] fix: u256b::testBit reads bits 64 and 128 from the
 right word

---
 src/linear_gkr/prime_field.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linear_gkr/prime_field.cpp b/src/linear_gkr/prime_field.cpp
index 23edac2..4b4c106 100644
--- a/src/linear_gkr/prime_field.cpp
+++ b/src/linear_gkr/prime_field.cpp
@@ -192,11 +192,11 @@ namespace prime_field
 
 	int u256b::testBit(int i)
 	{
-		if(i <= 64)
+		if(i < 64)
 		{
 			return (lo >> i) & 1;
 		}
-		else if(i <= 128)
+		else if(i < 128)
 		{
 			return (mid >> (i - 64)) & 1;
 		}
-- 
2.43.0


From 5b96e0e9369be924a7c70a4826ce6a418726c5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:42 +0000
Subject: [PATCH 06/20] fix: gen mode 4 wires the product layer to A[i][k] and
 B[k][j]

---
 bin/gen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/gen.cpp b/bin/gen.cpp
index 36ec9ae..1db838b 100644
--- a/bin/gen.cpp
+++ b/bin/gen.cpp
@@ -239,7 +239,7 @@ int main(int argc, char **argv)
 				for(int k = 0; k < mat_sz; ++k)
 				{
 					int id = i * mat_sz * mat_sz + j * mat_sz + k;
-					int a = i * k, b = k * j;
+					int a = i * mat_sz + k, b = mat_sz * mat_sz + k * mat_sz + j;
 					printf("%d %d %d %d ", 1, id, a, b);
 				}
 			}
-- 
2.43.0


From 68c18306a16a2ed59896a2383b796601c0f8b0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:32 +0000
Subject: [PATCH 07/20] fix: parser_sha_data_parallel emits sum gates over
 their whole operand range

---
 parser_sha_data_parallel.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser_sha_data_parallel.cpp b/parser_sha_data_parallel.cpp
index c7b2bc2..e9ee5fa 100644
--- a/parser_sha_data_parallel.cpp
+++ b/parser_sha_data_parallel.cpp
@@ -310,6 +310,8 @@ void DAG_to_layered()
 		{
 			layer_gate.v = 0;
 		}
+		if(g.ty == sum_gate)
+			layer_gate.v++; //SS names its last operand, the gate's range is [u, v)
 		sha256.layers[lvl].gates.push_back(layer_gate);
 		assert(sha256_dag_copy.circuit[g.input0].layered_lvl + 1 == lvl || g.ty == input);
 		assert(sha256_dag_copy.circuit[g.input1].layered_lvl + 1 == lvl || g.ty == relay_gate_id || g.ty == not_gate_id || g.ty == input);
@@ -669,7 +671,7 @@ void merge_and_output()
 				{
 					if(sha256.layers[i].gates[j].ty == sum_gate)
 					{
-						printf("%lld %lld\n", sha256.layers[i].gates[j].u, sha256.layers[i].gates[j].v + 1);
+						printf("%lld %lld\n", sha256.layers[i].gates[j].u, sha256.layers[i].gates[j].v);
 					}
 					fprintf(sha256_circuit_file, "%d %d %015lld %lld ", sha256.layers[i].gates[j].ty, sha256.layers[i].gates[j].g + r * block_size, sha256.layers[i].gates[j].u + r * prev_block_size, sha256.layers[i].gates[j].v + r * prev_block_size);
 				}
-- 
2.43.0


From bbc18207ff05d45f4145a44c4eef661090359a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:57 +0000
Subject: [PATCH 08/20] fix: dummy input gates are zero in bc_clogc, as in the
 other programs

---
 src/traditional_gkr/prover_bc_clogc.cpp   | 3 ++-
 src/traditional_gkr/verifier_bc_clogc.cpp | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/traditional_gkr/prover_bc_clogc.cpp b/src/traditional_gkr/prover_bc_clogc.cpp
index bfb3127..53c2524 100644
--- a/src/traditional_gkr/prover_bc_clogc.cpp
+++ b/src/traditional_gkr/prover_bc_clogc.cpp
@@ -61,7 +61,8 @@ prime_field::field_element* prover::evaluate()
 			v = C.blocks[blk].circuit[0].gates[g].v;
 			ty = C.blocks[blk].circuit[0].gates[g].ty;
 			assert(ty == 3 || ty == 2);
-			circuit_value[blk][0][g] = prime_field::field_element(u);
+			//a dummy input is zero whatever its operand field holds
+			circuit_value[blk][0][g] = prime_field::field_element(ty == 3 ? u : 0);
 		}
 		for(int i = 1; i < C.blocks[blk].total_depth; ++i)
 		{
diff --git a/src/traditional_gkr/verifier_bc_clogc.cpp b/src/traditional_gkr/verifier_bc_clogc.cpp
index 7597fbe..cf9e25c 100644
--- a/src/traditional_gkr/verifier_bc_clogc.cpp
+++ b/src/traditional_gkr/verifier_bc_clogc.cpp
@@ -417,10 +417,14 @@ bool verifier::verify()
 		for(int i = 0; i < (1 << C.blocks[blk].circuit[0].bit_length); ++i)
 		{
 			int g = blk * blk_size + i;
-			if(C.blocks[blk].circuit[0].gates[i].ty == 3 || C.blocks[blk].circuit[0].gates[i].ty == 2)
+			if(C.blocks[blk].circuit[0].gates[i].ty == 3)
 			{
 				input[g] = prime_field::field_element(C.blocks[blk].circuit[0].gates[i].u);
 			}
+			else if(C.blocks[blk].circuit[0].gates[i].ty == 2)
+			{
+				input[g] = prime_field::field_element(0);
+			}
 			else
 				assert(false);
 		}
-- 
2.43.0


From 03baf800b5d0d8d72a80adc5b4906d393b235b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:33 +0000
Subject: [PATCH 09/20] fix: gen_lanczos walks the filter taps by distance from
 the centre

---
 bin/gen_lanczos.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bin/gen_lanczos.py b/bin/gen_lanczos.py
index 631b263..f8144ce 100644
--- a/bin/gen_lanczos.py
+++ b/bin/gen_lanczos.py
@@ -167,14 +167,16 @@ def print_circuit(ratio, npixels, N_in, fh):
                 #conv
                 pixNumL = npixels * (ratio * yrep + y) + ratio * xrep
                 pixNumR = pixNumL + 4 * ratio
-                coef_id = 0
-                inc = 1
+                # taps are indexed by distance from the centre: 2*ratio-1 .. 0, 0 .. 2*ratio-1
+                coef_id = 2 * ratio - 1
+                inc = -1
                 for pix in range(pixNumL, pixNumR):
                     fh.write("1 %d %d %d "% ((xrep * n_reps + yrep) * (16 * ratio * ratio) + gid, pix, coef_id + total_pixels))
                     gid = gid + 1
-                    if(coef_id + 1 == 2 * ratio):
-                        inc = -1
-                    coef_id = coef_id + inc
+                    if(coef_id == 0 and inc == -1):
+                        inc = 1
+                    else:
+                        coef_id = coef_id + inc
     for i in range(padding_num):
         fh.write("2 %d 0 0 " % ((n_reps * n_reps * (4 * ratio) ** 2) + i))
     fh.write("\n")
-- 
2.43.0


From 82d9e1d240e7c787011b1a58d03beb708cda31d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:33 +0000
Subject: [PATCH 10/20] fix: gen_lanczos pads its output layer to a power of
 two

---
 bin/gen_lanczos.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bin/gen_lanczos.py b/bin/gen_lanczos.py
index f8144ce..6eeb99c 100644
--- a/bin/gen_lanczos.py
+++ b/bin/gen_lanczos.py
@@ -194,10 +194,13 @@ def print_circuit(ratio, npixels, N_in, fh):
     
     fh.write("\n")
     
-    fh.write("%d "% (n_reps * n_reps))
+    padding_num = (2 ** (n_reps * n_reps - 1).bit_length()) - (n_reps * n_reps)
+    fh.write("%d "% (n_reps * n_reps + padding_num))
     for xrep in range(n_reps):
         for yrep in range(n_reps):
             fh.write("5 %d %d %d "% ((xrep * n_reps + yrep), (xrep * n_reps + yrep) * 4 * ratio, (xrep * n_reps + yrep + 1) * 4 * ratio))
+    for i in range(padding_num):
+        fh.write("2 %d 0 0 " % (n_reps * n_reps + i))
 if __name__ == "__main__":
     # handle arguments
     if len(sys.argv) < 3:
-- 
2.43.0


From 38be6d409c0d8e0745e9043ac660f3ed1e28ed71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:27 +0000
Subject: [PATCH 11/20] fix: give the input layer a block shape in
 zk_verifier::read_circuit

beta_init(1) reads the block shape of layer 0 when layer 1 is declared parallel; it was never set.
---
 src/linear_gkr/zk_verifier.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index af21648..97cc773 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -151,6 +151,8 @@ void zk_verifier::read_circuit(const char *path, const char *meta_path)
 			max_bit_length = C.circuit[i].bit_length;
 	}
 	C.circuit[0].is_parallel = false;
+	C.circuit[0].block_size = C.circuit[0].repeat_num = 0;
+	C.circuit[0].log_block_size = C.circuit[0].log_repeat_num = 0;
 	for(int i = 1; i <= d; ++i)
 	{
 		int is_para;
-- 
2.43.0


From 0bad18291a1f67d3e0c1f48b07fc77e78acee4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:27 +0000
Subject: [PATCH 12/20] fix: sum gates of parallel layers that end at their
 block's boundary

The exclusive end of the range is the first index of the next block, so masking it left an empty or
truncated range in the verifier's predicate and an honest proof was rejected.
---
 src/linear_gkr/zk_verifier.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index 97cc773..0bbf367 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -285,7 +285,9 @@ vector<prime_field::field_element> zk_verifier::predicates(int depth, prime_fiel
 					auto beta_g_val_alpha = beta_g_r0_block_first_half[g_first_half] * beta_g_r0_block_second_half[g_second_half];
 					auto beta_g_val_beta = beta_g_r1_block_first_half[g_first_half] * beta_g_r1_block_second_half[g_second_half];
 					auto beta_v_0 = beta_v_block_first_half[0] * beta_v_block_second_half[0];
-					for(int j = u; j < v; ++j)
+					//v is one past the last summand, so it may be the first index of the next block
+					int end = u + (C.circuit[depth].gates[i].v - C.circuit[depth].gates[i].u);
+					for(int j = u; j < end; ++j)
 					{
 						int u_first_half = j & ((1 << first_half_uv) - 1);
 						int u_second_half = j >> first_half_uv;
-- 
2.43.0


From 0f3e598ea973d8aef7ef815ad203a6c276e1efa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:50 +0000
Subject: [PATCH 13/20] fix: vpdR and input_vpd verify the last witness's
 companion too

---
 src/VPD/inputvpd.cpp | 2 +-
 src/VPD/vpdR.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/VPD/inputvpd.cpp b/src/VPD/inputvpd.cpp
index 46d976e..af3095b 100644
--- a/src/VPD/inputvpd.cpp
+++ b/src/VPD/inputvpd.cpp
@@ -383,7 +383,7 @@ bool verify(vector<mpz_class> r, Ec1 digest, Ec1 digest2, mpz_class Z, mpz_class
 	
 	bool flag = 1;
 	
-	for(int i = 0; i < r.size(); i++){
+	for(int i = 0; i < r.size() + 1; i++){
 		opt_atePairing(ea1, g2, witnessa[i]);
 		opt_atePairing(ea2, g2a, witness[i]);
 		if(ea1 != ea2){
diff --git a/src/VPD/vpdR.cpp b/src/VPD/vpdR.cpp
index cd85b81..076adb3 100644
--- a/src/VPD/vpdR.cpp
+++ b/src/VPD/vpdR.cpp
@@ -183,7 +183,7 @@ bool verify(vector<mpz_class> r, Ec1 digest, mpz_class ans, vector<Ec1>& witness
 	
 	bool flag = 1;
 	
-	for(int i = 0; i < r.size(); i++){
+	for(int i = 0; i < r.size() + 1; i++){
 		opt_atePairing(ea1, g2, witnessa[i]);
 		opt_atePairing(ea2, g2a, witness[i]);
 		if(ea1 != ea2){
-- 
2.43.0


From 8f31316598e54c49bba966de777a5b109e61d1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:58 +0000
Subject: [PATCH 14/20] fix: zk_verifier checks the input commitments against
 their companions

---
 include/VPD/input_vpd.h        | 1 +
 src/linear_gkr/zk_verifier.cpp | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/include/VPD/input_vpd.h b/include/VPD/input_vpd.h
index 947dbbf..d955fe5 100644
--- a/include/VPD/input_vpd.h
+++ b/include/VPD/input_vpd.h
@@ -22,6 +22,7 @@ using namespace bn;
 namespace input_vpd
 {
     std::pair<mpz_class, mpz_class> commit(Ec1& digest, Ec1& digesta, Ec1& digest2, Ec1& digest2a, vector<mpz_class>& input, vector<mpz_class>& input2);
+    bool check_commit(Ec1 digest, Ec1 digesta, Ec1 digest2, Ec1 digest2a);
     void KeyGen(int d);
     void pre_input(std::vector<mpz_class>& input);
     void prove(vector<mpz_class> r, mpz_class& ans, vector<mpz_class>& input, vector<mpz_class> &input2, vector<Ec1>& witness, vector<Ec1>& witnessa, mpz_class r_f, mpz_class r_f2, mpz_class Z);
diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index 0bbf367..48c6608 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -870,6 +870,11 @@ bool zk_verifier::verify(const char* output_path)
 		trans.msg.push_back(container(digest_input.first[i]));
 	for(int i = 0; i < digest_input.second.size(); ++i)
 		trans.msg.push_back(container(digest_input.second[i]));
+	if(!input_vpd::check_commit(digest_input.first[0], digest_input.first[1], digest_input.second[0], digest_input.second[1]))
+	{
+		fprintf(stderr, "Verification fail, input commitment.\n");
+		return false;
+	}
 	prime_field::field_element alpha, beta;
 	alpha.value = 1;
 	beta.value = 0;
-- 
2.43.0


From 9fe6b4adaa27de439e589390b310dbe9b3844d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:22 +0000
Subject: [PATCH 15/20] fix: zk_verifier draws each challenge after the
 messages it answers and records every message

The round challenges, rho and r_c were drawn before the prover's messages, and the outputs, claims, the
last round's polynomial, the mask's sum and the opened values never entered the transcript.
---
 src/linear_gkr/zk_prover.cpp   | 18 ++++++-----
 src/linear_gkr/zk_verifier.cpp | 56 +++++++++++++++++++++-------------
 2 files changed, 44 insertions(+), 30 deletions(-)

diff --git a/src/linear_gkr/zk_prover.cpp b/src/linear_gkr/zk_prover.cpp
index 02ab256..fd81ab3 100644
--- a/src/linear_gkr/zk_prover.cpp
+++ b/src/linear_gkr/zk_prover.cpp
@@ -173,6 +173,15 @@ vector<bn::Ec1> zk_prover::generate_maskpoly_pre_rho(int length, int degree)
 		maskpoly_gmp[i] = maskpoly[i].to_gmp_class();
 
 	r_f_mask_poly = vpd_test::commit(ret[0], ret[1], maskpoly_gmp);
+
+	maskpoly_sumc = maskpoly[length * degree];
+	for(int i = length * degree; i >= 0; i--)
+		maskpoly_sumc = maskpoly_sumc + maskpoly[i];
+	for(int i = 1; i <= 6; i++)
+		maskpoly_sumc = maskpoly_sumc + maskpoly[length * degree + i];
+
+	for(int i = 1; i < length; i++)
+		maskpoly_sumc = maskpoly_sumc + maskpoly_sumc;
 	return ret;
 }
 
@@ -236,14 +245,7 @@ void zk_prover::generate_maskpoly_after_rho(int length, int degree)
 	for(int i = 0; i < length * degree + 1 + 6; i++){
 		maskpoly[i] = maskpoly[i] * rho;
 	}
-	maskpoly_sumc = maskpoly[length * degree];
-	for(int i = length * degree; i >= 0; i--)
-		maskpoly_sumc = maskpoly_sumc + maskpoly[i];
-	for(int i = 1; i <= 6; i++)
-		maskpoly_sumc = maskpoly_sumc + maskpoly[length * degree + i];
-
-	for(int i = 1; i < length; i++)
-		maskpoly_sumc = maskpoly_sumc + maskpoly_sumc;
+	maskpoly_sumc = maskpoly_sumc * rho;
 	maskpoly_sumr = prime_field::field_element(0);
 }
 
diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index 48c6608..215da95 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -879,6 +879,9 @@ bool zk_verifier::verify(const char* output_path)
 	alpha.value = 1;
 	beta.value = 0;
 	random_oracle oracle;
+	//the claimed outputs are public: hashed, but not part of the proof
+	for(int i = 0; i < (1 << C.circuit[C.total_depth - 1].bit_length); ++i)
+		trans.msg.push_back(container(result[i], container::randomness_indicator));
 	//initial random value
 	prime_field::field_element *r_0 = generate_randomness(C.circuit[C.total_depth - 1].bit_length), *r_1 = generate_randomness(C.circuit[C.total_depth - 1].bit_length);
 	prime_field::field_element *one_minus_r_0, *one_minus_r_1;
@@ -907,7 +910,6 @@ bool zk_verifier::verify(const char* output_path)
 	{
 		std::chrono::high_resolution_clock::time_point t0 = std::chrono::high_resolution_clock::now();
 	//	std::cerr << "Bound u start" << std::endl;
-		auto rho = trans.random();
 		std::vector<bn::Ec1> digest_mask;
 
 		auto digest_maskR = p -> sumcheck_init(i, C.circuit[i].bit_length, C.circuit[i - 1].bit_length, C.circuit[i - 1].bit_length, alpha, beta, r_0, r_1, one_minus_r_0, one_minus_r_1);
@@ -918,6 +920,9 @@ bool zk_verifier::verify(const char* output_path)
 			trans.msg.push_back(digest_mask[j]);
 		for(int j = 0; j < digest_maskR.size(); ++j)
 			trans.msg.push_back(digest_maskR[j]);
+		auto mask_sum = p -> maskpoly_sumc;
+		trans.msg.push_back(container(mask_sum, container::fld_ele_indicator));
+		auto rho = trans.random();
 		p -> rho = rho;
 		p -> generate_maskpoly_after_rho(C.circuit[i - 1].bit_length * 2 + 1, 2);
 		bool r_verify_cc = vpdR::check_commit(digest_maskR[0], digest_maskR[1]);
@@ -925,24 +930,16 @@ bool zk_verifier::verify(const char* output_path)
 		
 		//add maskpoly
 
-		alpha_beta_sum.value = (alpha_beta_sum.value + p->maskpoly_sumc.value) % prime_field::mod;
+		alpha_beta_sum = alpha_beta_sum + rho * mask_sum;
 
 		p -> sumcheck_phase1_init();
 		prime_field::field_element previous_random = prime_field::field_element(0);
 		//next level random
-		auto r_u = generate_randomness(C.circuit[i - 1].bit_length);
-		auto r_v = generate_randomness(C.circuit[i - 1].bit_length);
-		direct_relay_value = alpha * direct_relay(i, r_0, r_u) + beta * direct_relay(i, r_1, r_u);
-		auto r_c = generate_randomness(1);
+		auto r_u = new prime_field::field_element[C.circuit[i - 1].bit_length];
+		auto r_v = new prime_field::field_element[C.circuit[i - 1].bit_length];
 		prime_field::field_element *one_minus_r_u, *one_minus_r_v;
 		one_minus_r_u = new prime_field::field_element[C.circuit[i - 1].bit_length];
 		one_minus_r_v = new prime_field::field_element[C.circuit[i - 1].bit_length];
-		
-		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
-		{
-			one_minus_r_u[j] = prime_field::field_element(1) - r_u[j];
-			one_minus_r_v[j] = prime_field::field_element(1) - r_v[j];
-		}
 
 		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
 		{	
@@ -955,6 +952,8 @@ bool zk_verifier::verify(const char* output_path)
 				trans.msg.push_back(container(poly.d, container::fld_ele_indicator));
 				trans.msg.push_back(container(poly.e, container::fld_ele_indicator));
 				trans.msg.push_back(container(poly.f, container::fld_ele_indicator));
+				r_u[j] = trans.random();
+				one_minus_r_u[j] = prime_field::field_element(1) - r_u[j];
 				previous_random = r_u[j];
 
 
@@ -977,6 +976,8 @@ bool zk_verifier::verify(const char* output_path)
 				trans.msg.push_back(container(poly.a, container::fld_ele_indicator));
 				trans.msg.push_back(container(poly.b, container::fld_ele_indicator));
 				trans.msg.push_back(container(poly.c, container::fld_ele_indicator));
+				r_u[j] = trans.random();
+				one_minus_r_u[j] = prime_field::field_element(1) - r_u[j];
 				previous_random = r_u[j];
 			
 
@@ -998,12 +999,13 @@ bool zk_verifier::verify(const char* output_path)
 		std::chrono::duration<double> time_span = std::chrono::duration_cast<std::chrono::duration<double>>(t1 - t0);
 	//	std::cerr << "Bound v start" << std::endl;
 		t0 = std::chrono::high_resolution_clock::now();
+		direct_relay_value = alpha * direct_relay(i, r_0, r_u) + beta * direct_relay(i, r_1, r_u);
 		p -> sumcheck_phase2_init(previous_random, r_u, one_minus_r_u);
+		auto v_u = p -> v_u;
+		trans.msg.push_back(container(v_u, container::fld_ele_indicator));
 		previous_random = prime_field::field_element(0);
 		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
 		{
-			if(i == 1)
-				r_v[j] = prime_field::field_element(0);
 			if(j == C.circuit[i - 1].bit_length - 1){
 				quintuple_poly poly = p -> sumcheck_phase2_updatelastbit(previous_random, j);
 				proof_size += sizeof(quintuple_poly) / 2;
@@ -1014,8 +1016,10 @@ bool zk_verifier::verify(const char* output_path)
 				trans.msg.push_back(container(poly.e, container::fld_ele_indicator));
 				trans.msg.push_back(container(poly.f, container::fld_ele_indicator));
 				poly.f = poly.f;
+				r_v[j] = trans.random();
+				one_minus_r_v[j] = prime_field::field_element(1) - r_v[j];
 				previous_random = r_v[j];
-				if(poly.eval(0) + poly.eval(1) + direct_relay_value * p -> v_u != alpha_beta_sum)
+				if(poly.eval(0) + poly.eval(1) + direct_relay_value * v_u != alpha_beta_sum)
 				{
 					fprintf(stderr, "Verification fail, phase2, circuit level %d, current bit %d\n", i, j);
 					return false;
@@ -1024,7 +1028,7 @@ bool zk_verifier::verify(const char* output_path)
 				{
 					
 				}
-				alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * p -> v_u;
+				alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * v_u;
 			}
 			else
 			{
@@ -1035,8 +1039,10 @@ bool zk_verifier::verify(const char* output_path)
 				trans.msg.push_back(container(poly.c, container::fld_ele_indicator));
 				poly.c = poly.c;
 			
+				r_v[j] = trans.random();
+				one_minus_r_v[j] = prime_field::field_element(1) - r_v[j];
 				previous_random = r_v[j];
-				if(poly.eval(0) + poly.eval(1) + direct_relay_value * p -> v_u != alpha_beta_sum)
+				if(poly.eval(0) + poly.eval(1) + direct_relay_value * v_u != alpha_beta_sum)
 				{
 					fprintf(stderr, "Verification fail, phase2, circuit level %d, current bit %d\n", i, j);
 					return false;
@@ -1045,7 +1051,7 @@ bool zk_verifier::verify(const char* output_path)
 				{
 					
 				}
-				alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * p -> v_u;
+				alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * v_u;
 			}
 		}
 
@@ -1056,8 +1062,8 @@ bool zk_verifier::verify(const char* output_path)
 		auto final_claims = p -> sumcheck_finalize(previous_random);
 		
 
-		auto v_u = final_claims.first;
 		auto v_v = final_claims.second;
+		trans.msg.push_back(container(v_v, container::fld_ele_indicator));
 
 		std::chrono::high_resolution_clock::time_point predicates_calc_t0 = std::chrono::high_resolution_clock::now();
 		beta_init(i, alpha, beta, r_0, r_1, r_u, r_v, one_minus_r_0, one_minus_r_1, one_minus_r_u, one_minus_r_v);
@@ -1081,14 +1087,17 @@ bool zk_verifier::verify(const char* output_path)
 		auto bit_test_value = predicates_value[13];
 		quadratic_poly poly = p->sumcheck_finalround(previous_random, C.circuit[i - 1].bit_length << 1, add_value * (v_u + v_v) + mult_value * v_u * v_v + not_value * (prime_field::field_element(1) - v_u) + minus_value * (v_u - v_v) + xor_value * (v_u + v_v - prime_field::field_element(2) * v_u * v_v) + naab_value * (v_v - v_u * v_v) + sum_value * v_u + relay_value * v_u + exp_sum_value * v_u + bit_test_value * (v_u * (prime_field::field_element(1) - v_v)));
 
+		trans.msg.push_back(container(poly.a, container::fld_ele_indicator));
+		trans.msg.push_back(container(poly.b, container::fld_ele_indicator));
+		trans.msg.push_back(container(poly.c, container::fld_ele_indicator));
+		auto r_c = generate_randomness(1);
+
 		if(poly.eval(0) + poly.eval(1) + direct_relay_value * v_u != alpha_beta_sum)
 		{
 			fprintf(stderr, "Verification fail, phase2, lastbit for c\n");
 			return false;
 		}
-		if(i == 1)
-			r_c[0] = prime_field::field_element(0);
-		alpha_beta_sum = poly.eval(r_c[0]) + direct_relay_value * p -> v_u;
+		alpha_beta_sum = poly.eval(r_c[0]) + direct_relay_value * v_u;
 
 		auto poly_commit_prove_time_t0 = std::chrono::high_resolution_clock::now();
 		mpz_class maskRg1_value_mpz, maskRg2_value_mpz;
@@ -1170,6 +1179,9 @@ bool zk_verifier::verify(const char* output_path)
 		maskpoly_value.value = prime_field::u512b(maskpoly_value_mpz.get_str().c_str(), maskpoly_value_mpz.get_str().length(), 10);
 		maskRg1_value.value = prime_field::u512b(maskRg1_value_mpz.get_str().c_str(), maskRg1_value_mpz.get_str().length(), 10);
 		maskRg2_value.value = prime_field::u512b(maskRg2_value_mpz.get_str().c_str(), maskRg2_value_mpz.get_str().length(), 10);
+		trans.msg.push_back(container(maskRg1_value, container::fld_ele_indicator));
+		trans.msg.push_back(container(maskRg2_value, container::fld_ele_indicator));
+		trans.msg.push_back(container(maskpoly_value, container::fld_ele_indicator));
 		if(alpha_beta_sum != r_c[0] * (add_value * (v_u + v_v) + mult_value * v_u * v_v + not_value * (prime_field::field_element(1) - v_u) + minus_value * (v_u - v_v) + xor_value * (v_u + v_v - prime_field::field_element(2) * v_u * v_v) + naab_value * (v_v - v_u * v_v) + sum_value * v_u + relay_value * v_u + exp_sum_value * v_u + bit_test_value * (prime_field::field_element(1) - v_v) * v_u) + alpha * p -> Iuv * p ->preZu * maskRg1_value + beta * p -> Iuv * p -> preZv * maskRg2_value + rho * maskpoly_value + direct_relay_value * v_u)
 		{
 			fprintf(stderr, "Verification fail, semi final, circuit level %d\n", i);
-- 
2.43.0


From 14286bbd90da3f76a520f3ea3993bf4afcd39ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:22 +0000
Subject: [PATCH 16/20] fix: zk_verifier computes the mask multipliers and
 opening points itself

---
 src/linear_gkr/zk_verifier.cpp | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index 215da95..bd3de07 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -847,6 +847,15 @@ prime_field::field_element zk_verifier::V_in(const prime_field::field_element* r
 	return ret;
 }
 
+//vanishes when some coordinate of the point is 0 or 1, so that the masks do not change the layer's values
+static prime_field::field_element mask_multiplier(const prime_field::field_element *r, const prime_field::field_element *one_minus_r, int size)
+{
+	prime_field::field_element ret(1);
+	for(int i = 0; i < size; ++i)
+		ret = ret * r[i] * one_minus_r[i];
+	return ret;
+}
+
 bool zk_verifier::verify(const char* output_path)
 {
 	int proof_size = 0;
@@ -1103,7 +1112,7 @@ bool zk_verifier::verify(const char* output_path)
 		mpz_class maskRg1_value_mpz, maskRg2_value_mpz;
 		std::vector<mpz_class> r;
 		r.resize(2);
-		r[0] = p -> prepreu1.to_gmp_class(), r[1] = r_c[0].to_gmp_class();
+		r[0] = r_0[C.circuit[i].bit_length - 1].to_gmp_class(), r[1] = r_c[0].to_gmp_class();
 		auto witnesses = p -> prove_R(r, maskRg1_value_mpz);
 		prime_field::field_element tmp_rg1;
 		proof_size += sizeof(bn::Ec1) / bilinear_pairing_factor * (witnesses.first.size() + witnesses.second.size());
@@ -1118,7 +1127,7 @@ bool zk_verifier::verify(const char* output_path)
 		std::chrono::duration<double> vpdr_verify_0_span = std::chrono::duration_cast<std::chrono::duration<double>>(vpdr_verify_0_1 - vpdr_verify_0_0);
 		verification_time += vpdr_verify_0_span.count();
 
-		r[0] = p -> preprev1.to_gmp_class();
+		r[0] = r_1[C.circuit[i].bit_length - 1].to_gmp_class();
 		witnesses = p -> prove_R(r, maskRg2_value_mpz);
 		proof_size += sizeof(bn::Ec1) / bilinear_pairing_factor * (witnesses.first.size() + witnesses.second.size());
 		for(int i = 0; i < witnesses.first.size(); ++i)
@@ -1182,7 +1191,16 @@ bool zk_verifier::verify(const char* output_path)
 		trans.msg.push_back(container(maskRg1_value, container::fld_ele_indicator));
 		trans.msg.push_back(container(maskRg2_value, container::fld_ele_indicator));
 		trans.msg.push_back(container(maskpoly_value, container::fld_ele_indicator));
-		if(alpha_beta_sum != r_c[0] * (add_value * (v_u + v_v) + mult_value * v_u * v_v + not_value * (prime_field::field_element(1) - v_u) + minus_value * (v_u - v_v) + xor_value * (v_u + v_v - prime_field::field_element(2) * v_u * v_v) + naab_value * (v_v - v_u * v_v) + sum_value * v_u + relay_value * v_u + exp_sum_value * v_u + bit_test_value * (prime_field::field_element(1) - v_v) * v_u) + alpha * p -> Iuv * p ->preZu * maskRg1_value + beta * p -> Iuv * p -> preZv * maskRg2_value + rho * maskpoly_value + direct_relay_value * v_u)
+		//the output layer is not masked
+		prime_field::field_element Iuv(1), preZu(0), preZv(0);
+		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
+			Iuv = Iuv * one_minus_r_u[j] * one_minus_r_v[j];
+		if(i != C.total_depth - 1)
+		{
+			preZu = mask_multiplier(r_0, one_minus_r_0, C.circuit[i].bit_length);
+			preZv = mask_multiplier(r_1, one_minus_r_1, C.circuit[i].bit_length);
+		}
+		if(alpha_beta_sum != r_c[0] * (add_value * (v_u + v_v) + mult_value * v_u * v_v + not_value * (prime_field::field_element(1) - v_u) + minus_value * (v_u - v_v) + xor_value * (v_u + v_v - prime_field::field_element(2) * v_u * v_v) + naab_value * (v_v - v_u * v_v) + sum_value * v_u + relay_value * v_u + exp_sum_value * v_u + bit_test_value * (prime_field::field_element(1) - v_v) * v_u) + alpha * Iuv * preZu * maskRg1_value + beta * Iuv * preZv * maskRg2_value + rho * maskpoly_value + direct_relay_value * v_u)
 		{
 			fprintf(stderr, "Verification fail, semi final, circuit level %d\n", i);
 			return false;
@@ -1223,7 +1241,8 @@ bool zk_verifier::verify(const char* output_path)
 	auto poly_commit_prove_time_t0 = std::chrono::high_resolution_clock::now();
 
 	input_0_mpz = 0, input_1_mpz = 0;
-	auto witnesses_0 = p -> prove_input(r_0_mpz, input_0_mpz, p -> Zu.to_gmp_class());
+	auto Zu = mask_multiplier(r_0, one_minus_r_0, C.circuit[0].bit_length);
+	auto witnesses_0 = p -> prove_input(r_0_mpz, input_0_mpz, Zu.to_gmp_class());
 	proof_size += sizeof(bn::Ec1) / bilinear_pairing_factor * (witnesses_0.first.size() + witnesses_0.second.size());
 	for(int i = 0; i < witnesses_0.first.size(); ++i)
 		trans.msg.push_back(container(witnesses_0.first[i]));
@@ -1232,7 +1251,7 @@ bool zk_verifier::verify(const char* output_path)
 	
 
 	std::chrono::high_resolution_clock::time_point vpd_input_0 = std::chrono::high_resolution_clock::now();
-	bool input_0_verify = input_vpd::verify(r_0_mpz, digest_input.first[0], digest_input.second[0], p -> Zu.to_gmp_class(), input_0_mpz, witnesses_0.first, witnesses_0.second);
+	bool input_0_verify = input_vpd::verify(r_0_mpz, digest_input.first[0], digest_input.second[0], Zu.to_gmp_class(), input_0_mpz, witnesses_0.first, witnesses_0.second);
 	std::chrono::high_resolution_clock::time_point vpd_input_1 = std::chrono::high_resolution_clock::now();
 	std::chrono::duration<double> vpd_input_span = std::chrono::duration_cast<std::chrono::duration<double>>(vpd_input_1 - vpd_input_0);
 	verification_time += vpd_input_span.count();
@@ -1244,8 +1263,6 @@ bool zk_verifier::verify(const char* output_path)
 		return false;
 	}
 
-	input_0 = input_0 + p->Zu * p->sumRc.eval(p->preu1);
-	
 	auto is0 = input_0_mpz.get_str();
 	input_0.value = prime_field::u512b(is0.c_str(), is0.length(), 10);
 	
-- 
2.43.0


From 853b6376f5202cf7c8534f0384d7c8696997a870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:55 +0000
Subject: [PATCH 17/20] fix: dummy input gates are zero in the parallel
 program, as in the others

---
 src/linear_gkr/prover_fast_para_track.cpp   | 5 +++--
 src/linear_gkr/verifier_fast_para_track.cpp | 4 ++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/linear_gkr/prover_fast_para_track.cpp b/src/linear_gkr/prover_fast_para_track.cpp
index 8ca6cba..43862ed 100644
--- a/src/linear_gkr/prover_fast_para_track.cpp
+++ b/src/linear_gkr/prover_fast_para_track.cpp
@@ -70,8 +70,9 @@ prime_field::field_element* prover::evaluate()
 		u = C.circuit[0].gates[g].u;
 		v = C.circuit[0].gates[g].v;
 		ty = C.circuit[0].gates[g].ty;
-		assert(ty == 3);
-		circuit_value[0][g] = prime_field::field_element(u);
+		assert(ty == 3 || ty == 2);
+		//a dummy input is zero whatever its operand field holds, as the verifier takes it
+		circuit_value[0][g] = prime_field::field_element(ty == 3 ? u : 0);
 	}
 	assert(C.total_depth < 1000000);
 	for(int i = 1; i < C.total_depth; ++i)
diff --git a/src/linear_gkr/verifier_fast_para_track.cpp b/src/linear_gkr/verifier_fast_para_track.cpp
index f43624d..3ec4a51 100644
--- a/src/linear_gkr/verifier_fast_para_track.cpp
+++ b/src/linear_gkr/verifier_fast_para_track.cpp
@@ -355,6 +355,10 @@ bool verifier::verify()
 		{
 			input[g] = prime_field::field_element(C.circuit[0].gates[g].u);
 		}
+		else if(C.circuit[0].gates[g].ty == 2)
+		{
+			input[g] = prime_field::field_element(0);
+		}
 		else
 			assert(false);
 	}
-- 
2.43.0


From 81bc63ac8c4fef29450fbe6ee3d8a13ac5242f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:55 +0000
Subject: [PATCH 18/20] fix: parallel prover keeps phase-2 differences
 non-negative before reducing them

---
 src/linear_gkr/prover_fast_para_track.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/linear_gkr/prover_fast_para_track.cpp b/src/linear_gkr/prover_fast_para_track.cpp
index 43862ed..69d032c 100644
--- a/src/linear_gkr/prover_fast_para_track.cpp
+++ b/src/linear_gkr/prover_fast_para_track.cpp
@@ -630,13 +630,13 @@ void phase2_update_func(prover *p, int id, int total_uv, int current_bit, prime_
 		{
 			
 			p -> nV_mult_add[i].b.value = (p -> V_mult_add[g_zero].a.value * previous_random.value + p -> V_mult_add[g_zero].b.value) % prime_field::mod;
-			p -> nV_mult_add[i].a.value = (p -> V_mult_add[g_one].a.value * previous_random.value + p -> V_mult_add[g_one].b.value - p -> nV_mult_add[i].b.value) % prime_field::mod;
+			p -> nV_mult_add[i].a.value = (p -> V_mult_add[g_one].a.value * previous_random.value + p -> V_mult_add[g_one].b.value - p -> nV_mult_add[i].b.value + prime_field::mod) % prime_field::mod;
 
 			p -> naddV_array[i].b.value = (p -> addV_array[g_zero].a.value * previous_random.value + p -> addV_array[g_zero].b.value) % prime_field::mod;
-			p -> naddV_array[i].a.value = (p -> addV_array[g_one].a.value * previous_random.value + p -> addV_array[g_one].b.value - p -> naddV_array[i].b.value) % prime_field::mod;
+			p -> naddV_array[i].a.value = (p -> addV_array[g_one].a.value * previous_random.value + p -> addV_array[g_one].b.value - p -> naddV_array[i].b.value + prime_field::mod) % prime_field::mod;
 
 			p -> nadd_mult_sum[i].b.value = (p -> add_mult_sum[g_zero].a.value * previous_random.value + p -> add_mult_sum[g_zero].b.value) % prime_field::mod;
-			p -> nadd_mult_sum[i].a.value = (p -> add_mult_sum[g_one].a.value * previous_random.value + p -> add_mult_sum[g_one].b.value - p -> nadd_mult_sum[i].b.value) % prime_field::mod;
+			p -> nadd_mult_sum[i].a.value = (p -> add_mult_sum[g_one].a.value * previous_random.value + p -> add_mult_sum[g_one].b.value - p -> nadd_mult_sum[i].b.value + prime_field::mod) % prime_field::mod;
 		}
 
 		if(i % 8 == 0 || i + 1 == (total_uv >> 1))
-- 
2.43.0


From 25fc915c3f76bc07d32f34ff8cfe57a5062a43b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:56 +0000
Subject: [PATCH 19/20] fix: parallel prover completes beta_g_sum and beta_u
 before its threads read them

---
 src/linear_gkr/prover_fast_para_track.cpp | 24 +++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/linear_gkr/prover_fast_para_track.cpp b/src/linear_gkr/prover_fast_para_track.cpp
index 69d032c..298b56b 100644
--- a/src/linear_gkr/prover_fast_para_track.cpp
+++ b/src/linear_gkr/prover_fast_para_track.cpp
@@ -220,6 +220,13 @@ void phase1_init_func(prover* p, int id)
 							 + p -> beta_g_r1_fhalf[i & mask_fhalf].value * p -> beta_g_r1_shalf[i >> first_half].value) % prime_field::mod;
 	}
 	
+}
+
+//beta_g_sum must be complete before any thread reads it
+void phase1_gates_func(prover* p, int id)
+{
+	int total_uv = (1 << (p -> C.circuit[p -> sumcheck_layer_id - 1].bit_length));
+	int bs, st, ed;
 	/*
 
 	for(int i = st; i < ed; ++i)
@@ -311,6 +318,10 @@ void prover::sumcheck_phase1_init()
 		threads[i] = std::thread(phase1_init_func, this, i);
 	for(int i = 0; i < NUM_THREADS; ++i)
 		threads[i].join();
+	for(int i = 0; i < NUM_THREADS; ++i)
+		threads[i] = std::thread(phase1_gates_func, this, i);
+	for(int i = 0; i < NUM_THREADS; ++i)
+		threads[i].join();
 
 	std::chrono::high_resolution_clock::time_point t1 = std::chrono::high_resolution_clock::now();
 
@@ -456,6 +467,13 @@ void phase2_init_func(prover* p, int id)
 		p -> V_mult_add[i] = p -> circuit_value[p -> sumcheck_layer_id - 1][i];
 	}
 	
+}
+
+//beta_u must be complete before any thread reads it
+void phase2_gates_func(prover* p, int id)
+{
+	int total_uv = (1 << p -> C.circuit[p -> sumcheck_layer_id - 1].bit_length);
+	int bs, st, ed;
 	/*
 	bs = total_g / 16;
 	if(bs == 0)
@@ -593,6 +611,12 @@ void prover::sumcheck_phase2_init(prime_field::field_element previous_random, co
 	for(int i = 0; i < NUM_THREADS; ++i)
 		threads[i] = std::thread(phase2_init_func, this, i);
 	
+	for(int i = 0; i < NUM_THREADS; ++i)
+		threads[i].join();
+
+	for(int i = 0; i < NUM_THREADS; ++i)
+		threads[i] = std::thread(phase2_gates_func, this, i);
+	
 	for(int i = 0; i < NUM_THREADS; ++i)
 		threads[i].join();
 	
-- 
2.43.0


From 58bee3a5cb90b75dc93cb5f1d613ce19ace758a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:56 +0000
Subject: [PATCH 20/20] fix: parallel prover reduces its sums before they leave
 the range of operator %

---
 src/linear_gkr/prover_fast_para_track.cpp | 78 +++++------------------
 1 file changed, 17 insertions(+), 61 deletions(-)

diff --git a/src/linear_gkr/prover_fast_para_track.cpp b/src/linear_gkr/prover_fast_para_track.cpp
index 298b56b..8ad900a 100644
--- a/src/linear_gkr/prover_fast_para_track.cpp
+++ b/src/linear_gkr/prover_fast_para_track.cpp
@@ -372,22 +372,12 @@ void phase1_update_func(prover *p, int id, int total_uv, int current_bit, prime_
 			p -> nadd_mult_sum[i].a.value = (p -> add_mult_sum[g_one].a.value * previous_random.value + p -> add_mult_sum[g_one].b.value - p -> nadd_mult_sum[i].b.value + prime_field::mod) % prime_field::mod;
 
 		}
-		if(i % 4 == 0 || i + 1 == (total_uv >> 1))
-		{
-			p -> rets[id].a.value = (p -> rets[id].a.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].a.value) % prime_field::mod;
-			p -> rets[id].b.value = (p -> rets[id].b.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].b.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].a.value
-									  + p -> naddV_array[i].a.value) % prime_field::mod;
-			p -> rets[id].c.value = (p -> rets[id].c.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].b.value
-									  + p -> naddV_array[i].b.value) % prime_field::mod;
-		}
-		else
-		{
-			p -> rets[id].a.value = (p -> rets[id].a.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].a.value);
-			p -> rets[id].b.value = (p -> rets[id].b.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].b.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].a.value
-									  + p -> naddV_array[i].a.value);
-			p -> rets[id].c.value = (p -> rets[id].c.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].b.value
-									  + p -> naddV_array[i].b.value);
-		}
+		//operator % takes values below 2^508: reduce at every step
+		p -> rets[id].a.value = (p -> rets[id].a.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].a.value) % prime_field::mod;
+		p -> rets[id].b.value = (p -> rets[id].b.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].b.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].a.value
+								  + p -> naddV_array[i].a.value) % prime_field::mod;
+		p -> rets[id].c.value = (p -> rets[id].c.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].b.value
+								  + p -> naddV_array[i].b.value) % prime_field::mod;
 	}
 
 	p -> rets[id].a.value = p -> rets[id].a.value % prime_field::mod;
@@ -539,43 +529,20 @@ void phase2_gates_func(prover* p, int id)
 				if(ty == 1) //mult gate
 				{
 					p -> add_mult_sum[v].b.value = p -> add_mult_sum[v].b.value + (p -> beta_g_sum[g].value * p -> beta_u[u].value % prime_field::mod * p -> v_u.value) % prime_field::mod;
-					p -> add_mult_sum_counter[v]++;
-					if(p -> add_mult_sum_counter[v] > 30)
-					{
-						p -> add_mult_sum_counter[v] = 0;
-						p -> add_mult_sum[v].b.value = p -> add_mult_sum[v].b.value % prime_field::mod;
-					}
+					p -> add_mult_sum[v].b.value = p -> add_mult_sum[v].b.value % prime_field::mod;
 				}
 				if(ty == 0) //add gate
 				{
 					p -> add_mult_sum[v].b.value = (p -> add_mult_sum[v].b.value + p -> beta_g_sum[g].value * p -> beta_u[u].value);
 					p -> addV_array[v].b.value = ((p -> beta_g_sum[g].value * p -> beta_u[u].value % prime_field::mod) * p -> v_u.value + p -> addV_array[v].b.value);
 
-					p -> add_mult_sum_counter[v]++;
-					if(p -> add_mult_sum_counter[v] > 30)
-					{
-						p -> add_mult_sum_counter[v] = 0;
-						p -> add_mult_sum[v].b.value = p -> add_mult_sum[v].b.value % prime_field::mod;
-					}
-
-					p -> addV_array_counter[v]++;
-					if(p -> addV_array_counter[v] > 30)
-					{
-						p -> addV_array_counter[v] = 0;
-						p -> addV_array[v].b.value = p -> addV_array[v].b.value % prime_field::mod;
-					}
+					p -> add_mult_sum[v].b.value = p -> add_mult_sum[v].b.value % prime_field::mod;
+
+					p -> addV_array[v].b.value = p -> addV_array[v].b.value % prime_field::mod;
 				}
 			}
 		}
 	}
-	
-	for(int i = st; i < ed; ++i)
-	{
-		if(p -> add_mult_sum_counter[i])
-			p -> add_mult_sum[i].b.value = p -> add_mult_sum[i].b.value % prime_field::mod;
-		if(p -> addV_array_counter[i])
-			p -> addV_array[i].b.value = p -> addV_array[i].b.value % prime_field::mod;
-	}
 }
 
 void prover::sumcheck_phase2_init(prime_field::field_element previous_random, const prime_field::field_element* r_u, const prime_field::field_element* one_minus_r_u)
@@ -663,24 +630,13 @@ void phase2_update_func(prover *p, int id, int total_uv, int current_bit, prime_
 			p -> nadd_mult_sum[i].a.value = (p -> add_mult_sum[g_one].a.value * previous_random.value + p -> add_mult_sum[g_one].b.value - p -> nadd_mult_sum[i].b.value + prime_field::mod) % prime_field::mod;
 		}
 
-		if(i % 8 == 0 || i + 1 == (total_uv >> 1))
-		{
-			p -> rets[id].a.value = (p -> rets[id].a.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].a.value) % prime_field::mod;
-			p -> rets[id].b.value = (p -> rets[id].b.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].b.value
-									  +	p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].a.value
-									  + p -> naddV_array[i].a.value) % prime_field::mod;
-			p -> rets[id].c.value = (p -> rets[id].c.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].b.value
-									  + p -> naddV_array[i].b.value) % prime_field::mod;
-		}
-		else
-		{
-			p -> rets[id].a.value = (p -> rets[id].a.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].a.value);
-			p -> rets[id].b.value = (p -> rets[id].b.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].b.value
-									  +	p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].a.value
-									  + p -> naddV_array[i].a.value);
-			p -> rets[id].c.value = (p -> rets[id].c.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].b.value
-									  + p -> naddV_array[i].b.value);
-		}
+		//operator % takes values below 2^508: reduce at every step
+		p -> rets[id].a.value = (p -> rets[id].a.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].a.value) % prime_field::mod;
+		p -> rets[id].b.value = (p -> rets[id].b.value + p -> nadd_mult_sum[i].a.value * p -> nV_mult_add[i].b.value
+								  +	p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].a.value
+								  + p -> naddV_array[i].a.value) % prime_field::mod;
+		p -> rets[id].c.value = (p -> rets[id].c.value + p -> nadd_mult_sum[i].b.value * p -> nV_mult_add[i].b.value
+								  + p -> naddV_array[i].b.value) % prime_field::mod;
 	}
 
 
-- 
2.43.0

