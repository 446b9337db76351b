"""Edits that keep the behaviour: every check must stay quiet on them (tools/mut.py run tools/refactors.py prints `missed` for a quiet check)."""
PF="src/linear_gkr/prime_field.cpp"; PO="src/linear_gkr/polynomial.cpp"
VF="src/linear_gkr/verifier_fast_track.cpp"; PRF="src/linear_gkr/prover_fast_track.cpp"
VT="src/traditional_gkr/verifier_traditional.cpp"; PT="src/traditional_gkr/prover_clogc.cpp"
VB="src/traditional_gkr/verifier_bc_clogc.cpp"; PB="src/traditional_gkr/prover_bc_clogc.cpp"
FIELD=["F01","F02","F03","F04","F05","F06","P01"]
FAST=["C01","C02","C03","B03","T03"]
TRAD=["T01","T02","C03","B03","T03","D01"]
M={
"field-add512-builtin":(FIELD,[(PF,"""		u512b ret;
		__uint128_t carry, carry2;
		ret.lo = lo + x.lo;
		carry = ret.lo < lo;
		ret.mid = mid + x.mid + carry;
		if(carry == 0)
			carry2 = ret.mid < mid;
		else
			carry2 = ret.mid <= mid;
		ret.hi = hi + x.hi + carry2;
		return ret;""","""		u512b ret;
		unsigned c0 = __builtin_add_overflow(lo, x.lo, &ret.lo);
		unsigned c1 = __builtin_add_overflow(mid, x.mid, &ret.mid);
		c1 |= __builtin_add_overflow(ret.mid, (__uint128_t)c0, &ret.mid);
		ret.hi = hi + x.hi + (u256b)(unsigned long long)c1;
		return ret;""")]),
"field-add-helper":(FIELD,[(PF,"""	field_element field_element::operator + (const field_element &b) const
	{
		field_element ret;
		ret.value = (b.value + value);
		if(ret.value >= mod_512)
			ret.value = ret.value + minus_mod_512;
		return ret;
	}""","""	static inline u512b reduce_once(u512b v)
	{
		if(!(v < mod_512))
			v = v - mod_512;
		return v;
	}
	field_element field_element::operator + (const field_element &b) const
	{
		field_element ret;
		ret.value = reduce_once(value + b.value);
		return ret;
	}""")]),
"field-sub-flip":(FIELD,[(PF,"""		if(value >= b.value)
			ret.value = value - b.value;
		else
			ret.value = value + mod_512 - b.value;
		return ret;""","""		u512b base = value;
		if(value < b.value)
			base = base + mod_512;
		ret.value = base - b.value;
		return ret;""")]),
"field-ge-lt":(FIELD,[(PF,"""	bool u512b::operator >= (const u512b &x) const
	{
		if(hi > x.hi)
			return true;
		if(hi < x.hi)
			return false;
		if(mid > x.mid)
			return true;
		if(mid < x.mid)
			return false;
		return lo >= x.lo;
	}""","""	bool u512b::operator >= (const u512b &x) const
	{
		return !(*this < x);
	}"""),(PF,"""	inline bool u256b::operator <= (const u256b &x) const
	{
		if(hi < x.hi)
			return true;
		if(hi > x.hi)
			return false;
		if(mid < x.mid)
			return true;
		if(mid > x.mid)
			return false;
		if(lo <= x.lo)
			return true;
		return false;
	}""","""	inline bool u256b::operator <= (const u256b &x) const
	{
		if(hi != x.hi)
			return hi < x.hi;
		return mid != x.mid ? mid < x.mid : lo <= x.lo;
	}""")]),
"field-bits-loop":(FIELD,[(PF,"""		std::vector<bool> out;
		for(int i = 0; i < 128; ++i)
		{
			out.push_back((value.lo >> i) & 1);
		}
		
		for(int i = 0; i < 128; ++i)
		{
			out.push_back((value.mid >> i) & 1);
		}
		return out;""","""		std::vector<bool> out(256);
		for(int i = 0; i < 256; ++i)
			out[i] = i < 128 ? ((value.lo >> i) & 1) != 0 : ((value.mid >> (i - 128)) & 1) != 0;
		return out;"""),(PF,"""		for(int i = 0; i < 128; ++i)
			ret[i] = ((value.lo >> i) & 1) + '0';
		for(int i = 0; i < 128; ++i)
			ret[i + 128] = ((value.mid >> i) & 1) + '0';
		for(int i = 0; i < 256; ++i)
			ret[i + 256] = ((value.hi.bit_at(i)) & 1) + '0';
		return ret;""","""		char *p = ret;
		for(__uint128_t w = value.lo, i = 0; i < 128; ++i, w >>= 1)
			*p++ = (w & 1) ? '1' : '0';
		for(__uint128_t w = value.mid, i = 0; i < 128; ++i, w >>= 1)
			*p++ = (w & 1) ? '1' : '0';
		for(int i = 0; i < 256; ++i)
			*p++ = '0' + value.hi.testBit(i);
		return ret;""")]),
"field-mul-carry-helper":(FIELD,[(PF,"""	inline void mul_no_hi(const u256b &a, const u256b &b, u256b &ret)
	{
		const __uint128_t lolo = (__uint128_t)a.lo * (__uint128_t)b.lo;
		
		const __uint128_t lomid1 = (__uint128_t)a.mid * (__uint128_t)b.lo;
		const __uint128_t lomid2 = (__uint128_t)a.lo * (__uint128_t)b.mid;
		
		//hi * hi omitted
		ret.lo = (unsigned long long)lolo;
		const __uint128_t carry = lolo >> 64; //this carry is less than 2**64
		ret.mid = ((unsigned long long)lomid1 + (unsigned long long)lomid2 + (unsigned long long)carry);
		//this carry is not necessary less than 2**64
		const __uint128_t carry2 = ((lomid1 >> 64) + (lomid2 >> 64)) + 
						   (((lomid1 & __max_ull) + (lomid2 & __max_ull) + carry) >> 64);
						   
		ret.hi = (__uint128_t)a.mid * (__uint128_t)b.mid + carry2;
	}""","""	//full 128 x 128 -> 256 product
	inline void mul_no_hi(const u256b &a, const u256b &b, u256b &ret)
	{
		const __uint128_t lolo = (__uint128_t)a.lo * b.lo;
		const __uint128_t cross0 = (__uint128_t)a.mid * b.lo + (unsigned long long)(lolo >> 64);
		const __uint128_t cross1 = (__uint128_t)a.lo * b.mid + (unsigned long long)cross0;
		ret.lo = (unsigned long long)lolo;
		ret.mid = (unsigned long long)cross1;
		ret.hi = (__uint128_t)a.mid * b.mid + (unsigned long long)(cross0 >> 64) + (unsigned long long)(cross1 >> 64);
	}""")]),
"field-mod-direct":(FIELD,[(PF,"""		u512b t512 = (u512b)t;
		t512 = *this - t512 * mod;

		auto result = t512;
		if(t512 >= mod)
			result = t512 - mod;
		return result;""","""		u512b result = *this - (u512b)t * (u512b)mod;
		if(result >= (u512b)mod)
			result = result - (u512b)mod;
		return result;""")]),
"field-parse-horner":(FIELD,[(PF,"""		u256b ret = (u256b)(unsigned long long)0;
		u256b tmp = (u256b)(unsigned long long)1;
		for(int i = len - 1; i >= 0; --i)
		{
			ret = ret + tmp * ((u256b)(unsigned long long)(x[i] - '0'));
			tmp = tmp * ((u256b)(unsigned long long)base);
		}
		*this = ret;""","""		u256b ret = (u256b)(unsigned long long)0;
		const u256b b = (u256b)(unsigned long long)base;
		for(int i = 0; i < len; ++i)
			ret = ret * b + (u256b)(unsigned long long)(x[i] - '0');
		*this = ret;""")]),
"field-mul-comm":(FIELD,[(PF,"""		ret.value = (b.value * value) % mod;
		return ret;""","""		const u512b product = value * b.value;
		ret.value = product % mod;
		return ret;""")]),
"field-dead-code":(FIELD,[(PF,"""	inline u256b midhi_mul(const u256b &a, const u256b &b)
	{
		u256b ret;
		__uint128_t lolo = (__uint128_t)a.lo * (__uint128_t)b.lo;
		
		__uint128_t lomid1 = (__uint128_t)a.mid * (__uint128_t)b.lo;
		__uint128_t lomid2 = (__uint128_t)a.lo * (__uint128_t)b.mid;
		
		//hi * hi omitted
		ret.lo = (unsigned long long)lolo;
		__uint128_t carry = lolo >> 64; //this carry is less than 2**64
		ret.mid = ((unsigned long long)lomid1 + (unsigned long long)lomid2 + (unsigned long long)carry);				   
		return ret;
	}
""",""),(PF,"""	inline u256b u256b::operator & (const u256b &x) const
	{
		u256b ret;
		ret.lo = lo & x.lo;
		ret.mid = mid & x.mid;
		ret.hi = hi & x.hi;
		return ret;
	}
""",""),("include/linear_gkr/prime_field.h","		u256b operator & (const u256b &x) const;","")]),
"field-random-rand-helper":(FIELD,[(PF,"""		lo = rand();
		mid = rand();
		hi = (u256b)(unsigned long long)rand();""","""		const unsigned long long a = (unsigned long long)rand();
		const unsigned long long b = (unsigned long long)rand();
		const unsigned long long c = (unsigned long long)rand();
		lo = a;
		mid = b;
		hi = u256b(c);""")]),
"poly-temporaries":(FIELD+FAST,[(PO,"	return ((a * x) + b) * x + c;","	prime_field::field_element acc = a * x + b;\n	acc = acc * x;\n	return acc + c;"),
 (PO,"	return quadratic_poly(a * x.a, a * x.b + b * x.a, b * x.b);","	const prime_field::field_element cross = b * x.a + a * x.b;\n	return quadratic_poly(a * x.a, cross, b * x.b);"),
 (PO,"	return (((((a * x) + b) * x + c) * x + d) * x + e) * x + f;","	prime_field::field_element acc = a;\n	const prime_field::field_element rest[5] = {b, c, d, e, f};\n	for(int i = 0; i < 5; ++i)\n		acc = acc * x + rest[i];\n	return acc;"),
 (PO,"	a = aa;\n	b = bb;\n}\nlinear_poly::linear_poly(const prime_field::field_element &x)\n{\n	a = prime_field::field_element(0);\n	b = x;","	a = aa;\n	b = bb;\n}\nlinear_poly::linear_poly(const prime_field::field_element &x)\n	: linear_poly(prime_field::field_element(0), x)\n{")]),
}
import re
def R(*pairs):
    def f(t):
        for a, b in pairs:
            if t.count(a) != 1: raise SystemExit(f"{t.count(a)} matches for {a!r}")
            t = t.replace(a, b)
        return t
    return f
def RX(pat, rep, n=None, flags=re.S):
    def f(t):
        t2, k = re.subn(pat, rep, t, flags=flags)
        if k == 0 or (n and k != n): raise SystemExit(f"{k} matches for {pat!r}")
        return t2
    return f
BETA="(beta_g_r0[g] + beta_g_r1[g])"
def merge_predicates(t):
    """the gate predicates of a verifier become one-line calls of a common helper"""
    pat = r"(prime_field::field_element verifier::(\w+)\((?:const )?int depth\)\n\{)(.*?\n)\}\n"
    n = 0
    def one(m):
        nonlocal n
        body = m.group(3)
        if "for(int j = u" in body or "blk" in body: return m.group(0)
        ty = re.search(r"\.ty == (\d+)", body)
        if not ty: return m.group(0)
        n += 1
        return m.group(1) + "\n\tauto weight = [this, depth](int want)\n\t{\n\t\tprime_field::field_element total = prime_field::field_element(0);\n\t\tconst int gate_count = 1 << C.circuit[depth].bit_length;\n\t\tfor(int g = gate_count - 1; g >= 0; --g)\n\t\t{\n\t\t\tconst gate &cur = C.circuit[depth].gates[g];\n\t\t\tif(cur.ty != want)\n\t\t\t\tcontinue;\n\t\t\tprime_field::field_element uv = beta_u[cur.u] * beta_v[cur.v];\n\t\t\ttotal = total + uv * beta_g_r0[g] + uv * beta_g_r1[g];\n\t\t}\n\t\treturn total;\n\t};\n\treturn weight(" + ty.group(1) + ");\n}\n"
    t = re.sub(pat, one, t, flags=re.S)
    if n < 4: raise SystemExit(f"{n} predicates")
    return t
M["fast-verifier-predicates"]=(["C01","C03","B03"],[(VF,merge_predicates)])
M["trad-verifier-predicates"]=(["T01","C03","B03"],[(VT,merge_predicates)])
M["fast-verifier-round-lambda"]=(["C01","C03","B03","T03"],[(VF,R(("""			quadratic_poly poly = p -> sumcheck_phase1_update(previous_random, j);
			previous_random = r_u[j];
			if(poly.eval(0) + poly.eval(1) != alpha_beta_sum)
			{
				fprintf(stderr, "Verification fail, phase1, circuit %d, current bit %d\n", i, j);
				return false;
			}
			else
			{
			}
			alpha_beta_sum = poly.eval(r_u[j]);""","""			auto round_ok = [&](const quadratic_poly &q, const prime_field::field_element &extra, const prime_field::field_element &r)
			{
				const bool ok = alpha_beta_sum == q.eval(1) + q.eval(0) + extra;
				alpha_beta_sum = q.eval(r) + extra;
				return ok;
			};
			quadratic_poly poly = p -> sumcheck_phase1_update(previous_random, j);
			if(!round_ok(poly, prime_field::field_element(0), r_u[j]))
			{
				fprintf(stderr, "Verification fail, phase1, circuit %d, current bit %d\n", i, j);
				return false;
			}
			previous_random = r_u[j];"""),
 ("""			if(poly.eval(0) + poly.eval(1) + direct_relay_value * v_u != alpha_beta_sum)
			{""","""			const prime_field::field_element claimed = alpha_beta_sum;
			const prime_field::field_element total = poly.eval(1) + (poly.eval(0) + v_u * direct_relay_value);
			if(!(total == claimed))
			{""")))])
M["fast-verifier-final"]=(["C01","C03","B03"],[(VF,R(("""		auto mult_value = mult(i);
		auto add_value = add(i);
		auto not_value = not_gate(i);
		auto minus_value = minus_gate(i);
		auto xor_value = xor_gate(i);
		auto naab_value = NAAB_gate(i);
		auto sum_value = sum_gate(i);
		auto relay_value = relay_gate(i);
""","""		prime_field::field_element expected = relay_gate(i) * v_u;
		expected = expected + sum_gate(i) * v_u;
		expected = expected + NAAB_gate(i) * (prime_field::field_element(1) - v_u) * v_v;
		expected = expected + xor_gate(i) * (v_u * (prime_field::field_element(1) - v_v) + v_v * (prime_field::field_element(1) - v_u));
		expected = expected + minus_gate(i) * (v_u - v_v) + not_gate(i) * (prime_field::field_element(1) - v_u);
		expected = expected + direct_relay_value * v_u + mult(i) * (v_u * v_v) + add(i) * (v_u + v_v);
"""),("if(alpha_beta_sum != add_value * (v_u + v_v) + mult_value * v_u * v_v + direct_relay_value * v_u + not_value * (prime_field::field_element(1) - v_u) + minus_value * (v_u - v_v) + xor_value * (v_u + v_v - prime_field::field_element(2) * v_u * v_v) + naab_value * (v_v - v_u * v_v) + sum_value * v_u + relay_value * v_u)","if(expected != alpha_beta_sum)")))])
M["fast-verifier-vin-vector"]=(["C03","B03"],[(VF,R(("""	prime_field::field_element* output = new prime_field::field_element[output_size];
	for(int i = 0; i < output_size; ++i)
		output[i] = output_raw[i];
	for(int i = 0; i < r_0_size; ++i)
	{
		for(int j = 0; j < (output_size >> 1); ++j)
			output[j] = output[j << 1] * (one_minus_r_0[i]) + output[j << 1 | 1] * (r_0[i]);
		output_size >>= 1;
	}
	auto ret = output[0];
	ret.value = ret.value % prime_field::mod;
	delete[] output;
	if(ret.value < 0)
		ret.value = ret.value + prime_field::mod;
	return ret;""","""	std::vector<prime_field::field_element> folded(output_raw, output_raw + output_size);
	for(int i = 0; i < r_0_size; ++i)
	{
		const size_t half = folded.size() / 2;
		for(size_t j = 0; j < half; ++j)
			folded[j] = folded[2 * j] + r_0[i] * (folded[2 * j + 1] - folded[2 * j]);
		folded.resize(half);
	}
	return folded[0];"""),("#include <string>","#include <string>\n#include <vector>") if False else ("bool verifier::verify()\n{","bool verifier::verify()\n{\n	//see the header for the protocol")))])
M["fast-verifier-beta-helper"]=(["C01","C03","B03"],[(VF,R(("""	beta_u[0] = prime_field::field_element(1);
	beta_v[0] = prime_field::field_element(1);
	for(int i = 0; i < C.circuit[depth - 1].bit_length; ++i)
	{
		for(int j = 0; j < (1 << i); ++j)
		{
			beta_u[j | (1 << i)] = beta_u[j] * r_u[i];
			beta_v[j | (1 << i)] = beta_v[j] * r_v[i];
		}
			
		for(int j = 0; j < (1 << i); ++j)
		{
			beta_u[j] = beta_u[j] * one_minus_r_u[i];
			beta_v[j] = beta_v[j] * one_minus_r_v[i];
		}
	}
""","""	expand_table(beta_u, C.circuit[depth - 1].bit_length, r_u);
	expand_table(beta_v, C.circuit[depth - 1].bit_length, r_v);
"""),("void verifier::beta_init(","""static void expand_table(prime_field::field_element *table, int bits, const prime_field::field_element *r)
{
	table[0] = prime_field::field_element(1);
	for(int i = 0; i < bits; ++i)
	{
		for(int j = (1 << i) - 1; j >= 0; --j)
		{
			prime_field::field_element taken = table[j] * r[i];
			table[j + (1 << i)] = taken;
			table[j] = table[j] - taken;
		}
	}
}

void verifier::beta_init(""")))])
M["fast-verifier-input-switch"]=(["C03","B03"],[(VF,R(("""		int g = i;
		if(C.circuit[0].gates[g].ty == 3)
		{
			input[g] = prime_field::field_element(C.circuit[0].gates[g].u);
		}
		else if(C.circuit[0].gates[g].ty == 2)
		{
			input[g] = prime_field::field_element(0);
		}
		else
			assert(false);""","""		const gate &in = C.circuit[0].gates[i];
		switch(in.ty)
		{
			case 2:
				input[i] = prime_field::field_element(0);
				break;
			case 3:
				input[i] = prime_field::field_element(in.u);
				break;
			default:
				assert(!"not an input");
		}"""),("""		one_minus_r_0[i] = prime_field::field_element(1) - r_0[i];
		one_minus_r_1[i] = prime_field::field_element(1) - r_1[i];
	}""","""		const prime_field::field_element one(1);
		one_minus_r_1[i] = one - r_1[i];
		one_minus_r_0[i] = one - r_0[i];
	}""")))])
M["fast-verifier-combiner"]=(["C01","C03","B03","T03"],[(VF,R(("""		auto tmp_alpha = generate_randomness(1), tmp_beta = generate_randomness(1);
		alpha = tmp_alpha[0];
		beta = tmp_beta[0];
		delete[] tmp_alpha;
		delete[] tmp_beta;
		if(i != 1)
			alpha_beta_sum = alpha * v_u + beta * v_v;
		else
		{
			alpha_beta_sum = v_u;
		}""","""		auto combiners = generate_randomness(2);
		alpha = combiners[0];
		beta = combiners[1];
		delete[] combiners;
		alpha_beta_sum = i == 1 ? v_u : v_v * beta + v_u * alpha;"""),("		ret[i] = prime_field::random();\n		ret[i].value = ret[i].value % prime_field::mod;","		ret[i] = prime_field::random();")))])
M["fast-prover-evaluate-lambda"]=(["C01","C02"],[(PRF,R(("""				circuit_value[i][g] = prime_field::field_element(0);
				for(int k = u; k < v; ++k)
					circuit_value[i][g] = circuit_value[i][g] + circuit_value[i - 1][k];""","""				prime_field::field_element total = prime_field::field_element(0);
				for(int k = v - 1; k >= u; --k)
					total = circuit_value[i - 1][k] + total;
				circuit_value[i][g] = total;"""),("""				circuit_value[i][g] = y - x * y;""","""				circuit_value[i][g] = (prime_field::field_element(1) - x) * y;"""),
 ("""				circuit_value[i][g] = x + y - prime_field::field_element(2) * x * y;""","""				const auto xy = x * y;
				circuit_value[i][g] = (x - xy) + (y - xy);"""),
 ("""			else if(ty == 4)
			{
				circuit_value[i][g] = circuit_value[i - 1][u];
			}""","""			else if(ty == 4 || ty == 10)
			{
				circuit_value[i][g] = circuit_value[i - 1][u];
			}"""),("""			else if(ty == 10)
			{
				circuit_value[i][g] = circuit_value[i - 1][u];
			}
""","")))])
M["fast-prover-gsum"]=(["C01"],[(PRF,RX(r"\(beta_g_r0_fhalf\[i & mask_fhalf\]\.value \* beta_g_r0_shalf\[i >> first_half\]\.value \n\t+\+ beta_g_r1_fhalf\[i & mask_fhalf\]\.value \* beta_g_r1_shalf\[i >> first_half\]\.value\) % prime_field::mod;","beta_g_sum[i].value;"))])
M["fast-prover-operators"]=(["C01"],[(PRF,R(("""			add_mult_sum[i].b.value = (add_mult_sum[g_zero].a.value * previous_random.value + add_mult_sum[g_zero].b.value) % prime_field::mod;
			add_mult_sum[i].a.value = (add_mult_sum[g_one].a.value * previous_random.value + add_mult_sum[g_one].b.value - add_mult_sum[i].b.value + prime_field::mod) % prime_field::mod;
""","""			const linear_poly lo = add_mult_sum[g_zero], hi = add_mult_sum[g_one];
			add_mult_sum[i].b = lo.eval(previous_random);
			add_mult_sum[i].a = hi.eval(previous_random) - add_mult_sum[i].b;
"""),("""				add_mult_sum[v].b.value = add_mult_sum[v].b.value + (tmp_g * tmp_u % prime_field::mod * v_u.value);
				add_mult_sum[v].b.value = add_mult_sum[v].b.value % prime_field::mod;""","""				prime_field::field_element w, term;
				w.value = tmp_g * tmp_u % prime_field::mod;
				term = w * v_u;
				add_mult_sum[v].b = add_mult_sum[v].b + term;"""),
 ("	v_v = V_mult_add[0].eval(previous_random);\n	return std::make_pair(v_u, v_v);","	const linear_poly &last = V_mult_add[0];\n	v_v = last.b + last.a * previous_random;\n	return std::pair<prime_field::field_element, prime_field::field_element>(v_u, v_v);")))])

M["trad-verifier-round-shape"]=(["T01","C03","B03","T03","D01"],[(VT,R(("""			quadratic_poly poly = p -> sumcheck_phase1_update(previous_random, j);
			previous_random = r_u[j];
			if(poly.eval(0) + poly.eval(1) != alpha_beta_sum)
			{""","""			const quadratic_poly poly = p -> sumcheck_phase1_update(j == 0 ? prime_field::field_element(0) : r_u[j - 1], j);
			previous_random = r_u[j];
			const auto at0 = poly.c, at1 = poly.a + poly.b + poly.c;
			if(at0 + at1 != alpha_beta_sum)
			{"""),("""		if(alpha_beta_sum != add_value * (v_u + v_v) + mult_value * v_u * v_v)
		{""","""		const auto linear_part = add_value * v_u + add_value * v_v;
		const auto quadratic_part = v_v * (mult_value * v_u);
		if(!(linear_part + quadratic_part == alpha_beta_sum))
		{"""),("""		alpha_beta_sum = alpha * v_u + beta * v_v;

		delete[] r_0;
		delete[] r_1;
		delete[] one_minus_r_0;
		delete[] one_minus_r_1;
		r_0 = r_u;
		r_1 = r_v;
		one_minus_r_0 = one_minus_r_u;
		one_minus_r_1 = one_minus_r_v;""","""		alpha_beta_sum = v_v * beta + v_u * alpha;

		std::swap(r_0, r_u);
		std::swap(r_1, r_v);
		std::swap(one_minus_r_0, one_minus_r_u);
		std::swap(one_minus_r_1, one_minus_r_v);
		delete[] r_u;
		delete[] r_v;
		delete[] one_minus_r_u;
		delete[] one_minus_r_v;"""),("""	auto input_0 = V_in(r_0, one_minus_r_0, input, C.circuit[0].bit_length, (1 << C.circuit[0].bit_length)), 
		 input_1 = V_in(r_1, one_minus_r_1, input, C.circuit[0].bit_length, (1 << C.circuit[0].bit_length));
""","""	const int in_bits = C.circuit[0].bit_length;
	auto input_1 = V_in(r_1, one_minus_r_1, input, in_bits, (1 << in_bits));
	auto input_0 = V_in(r_0, one_minus_r_0, input, in_bits, (1 << in_bits));
""")))])
M["trad-prover-fold-helper"]=(["T01","T02","D01"],[(PT,R(("""quadratic_poly prover::sumcheck_phase1_update(""","""static prime_field::field_element mix(const prime_field::field_element &lo, const prime_field::field_element &hi, const prime_field::field_element &r)
{
	return lo + (hi - lo) * r;
}

quadratic_poly prover::sumcheck_phase1_update("""))),
(PT,RX(r"V_mult_add\[i\] = V_mult_add\[i << 1\] \* \(prime_field::field_element\(1\) - previous_random\)\n\t+\+ V_mult_add\[i << 1 \| 1\] \* previous_random;","V_mult_add[i] = mix(V_mult_add[2 * i], V_mult_add[2 * i + 1], previous_random);",2)),
(PT,R(("	v_v = V_mult_add[0] * (prime_field::field_element(1) - previous_random) + V_mult_add[1] * previous_random;","	v_v = mix(V_mult_add[0], V_mult_add[1], previous_random);"),
("	v_u = V_mult_add[0] * (prime_field::field_element(1) - previous_random) + V_mult_add[1] * previous_random;","	v_u = mix(V_mult_add[0], V_mult_add[1], previous_random);"),
("""				add_linear[target_linear].b = add_linear[target_linear].b + beta_g_sum[i] * (V_mult_add[v >> current_bit] + v_u);""" if False else """					add_linear[target_linear].b = add_linear[target_linear].b + beta_g_sum[i] * (V_mult_add[v >> current_bit] + v_u);""","""					const prime_field::field_element both = v_u + V_mult_add[v >> current_bit];
					add_linear[target_linear].b = beta_g_sum[i] * both + add_linear[target_linear].b;""")))])
M["trad-prover-evaluate-switch"]=(["T01","T02","D01"],[(PT,R(("""			if(ty == 0)
			{
				circuit_value[i][g] = circuit_value[i - 1][u] + circuit_value[i - 1][v];
			}
			else if(ty == 1)
			{
				circuit_value[i][g] = circuit_value[i - 1][u] * circuit_value[i - 1][v];
			}
			else if(ty == 2)
			{
				circuit_value[i][g] = prime_field::field_element(0);
			}
			else if(ty == 3)
			{
				circuit_value[i][g] = prime_field::field_element(u);
			}
			else
			{
				assert(false);
			}""","""			const prime_field::field_element *below = circuit_value[i - 1];
			prime_field::field_element out;
			switch(ty)
			{
				case 0:
					out = below[v] + below[u];
					break;
				case 1:
					out = below[v] * below[u];
					break;
				case 2:
					out = prime_field::field_element(0);
					break;
				case 3:
					out = prime_field::field_element(u);
					break;
				default:
					assert(false);
			}
			circuit_value[i][g] = out;""")))])
M["bc-verifier-alias"]=(["B01","B03","C03","T03"],[(VB,lambda t: t.replace("prime_field::field_element verifier::add(int depth)","static const int block_zero = 0;\n\nprime_field::field_element verifier::add(int depth)",1).replace("C.blocks[0].circuit","C.blocks[block_zero].circuit")),
(VB,R(("		beta_blk_val = beta_blk_val * (r_b_0[j] * r_b[j] + one_minus_r_b_0[j] * one_minus_r_b[j]);" if False else "			beta_blk_val = beta_blk_val * (r_b_0[j] * r_b[j] + one_minus_r_b_0[j] * one_minus_r_b[j]);","""		{
			const auto same = r_b_0[j] * r_b[j];
			beta_blk_val = (prime_field::field_element(1) - r_b_0[j] - r_b[j] + same + same) * beta_blk_val;
		}"""),("	cubic_poly poly = p -> sumcheck_phase0_update(previous_random, j);" if False else "			auto tmp = poly.eval(0) + poly.eval(1);\n			if(poly.eval(0) + poly.eval(1) != alpha_beta_sum)","			auto tmp = poly.eval(0) + poly.eval(1);\n			if(alpha_beta_sum != tmp)"),
("if(alpha_beta_sum != beta_blk_val * (add_value * (v_u + v_v) + mult_value * v_u * v_v))","if(alpha_beta_sum != (beta_blk_val * add_value) * (v_u + v_v) + (beta_blk_val * mult_value) * (v_u * v_v))")))])
M["bc-prover-eval"]=(["B01","B02"],[(PB,RX(r"circuit_value\[blk\]\[i\]\[g\] = circuit_value\[blk\]\[i - 1\]\[u\] \+ circuit_value\[blk\]\[i - 1\]\[v\];","circuit_value[blk][i][g] = circuit_value[blk][i - 1][v] + circuit_value[blk][i - 1][u];"))])
