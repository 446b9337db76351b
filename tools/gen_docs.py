#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PF, PFH = "src/linear_gkr/prime_field.cpp", "include/linear_gkr/prime_field.h"
FT = ["src/linear_gkr/verifier_fast_track.cpp", "src/linear_gkr/prover_fast_track.cpp", "src/linear_gkr/polynomial.cpp", "include/linear_gkr/circuit_fast_track.h"]
TT = ["src/traditional_gkr/verifier_traditional.cpp", "src/traditional_gkr/prover_clogc.cpp", "src/linear_gkr/polynomial.cpp", "include/linear_gkr/circuit_fast_track.h"]
BT = ["src/traditional_gkr/verifier_bc_clogc.cpp", "src/traditional_gkr/prover_bc_clogc.cpp", "src/linear_gkr/polynomial.cpp", "include/traditional_gkr/circuit_bc_clogc.h"]
MT = ["src/linear_gkr/verifier_fast_para_track.cpp", "src/linear_gkr/prover_fast_para_track.cpp", "src/linear_gkr/polynomial.cpp", "include/linear_gkr/prover_fast_para_track.h"]
I, C, G, H = "inputs", "configurations", "programs", "histories"
PROPS, NA = [], []
TE = "symbolic execution of the compiled functions' LLVM IR, SMT (z3: bit-vectors and integer arithmetic), native replay of counterexamples"
TG = "symbolic execution of the compiled programs over F_p terms, SMT (z3 non-linear real arithmetic) per path, native replay"
TV = "the generated circuit as SMT terms against the source program's semantics (z3), input symbolic; native re-run"


def P(id, title, st, over, text, why, files, mech, tech, note, level="model_checking"):
    PROPS.append((dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
                       anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), tech, level, note))


WHYF = "The tests multiply pseudo-random field elements inside whole proofs; a carry or correction that happens for one operand pair in 2^60 or less is never reached, and a wrong product still often leaves prover and verifier consistent with each other."
P("F01", "Field addition and subtraction are exact modulo the prime",
  "For any two canonical field elements (values below the prime p = 16798108731015832284940804142231733909759579603404752749028378864165570215949) the sum and the difference returned are the canonical representatives of a+b and a-b modulo p. The operands are left unchanged.",
  [I], "every pair of canonical 254-bit operands (508 symbolic bits)", WHYF, [PF, PFH],
  [("one conditional correction by the prime after a limb-wise add/subtract", PF + ": field_element::operator+, operator-"), ("carry propagation over eight 64-bit limbs", PF + ": u512b::operator+, operator-")],
  TE, "all canonical operands; the paths of the compiled code are enumerated completely and each is discharged by the solver")
P("F02", "Field multiplication and its wide-integer steps are exact",
  "For any two canonical field elements the product returned is the canonical representative of a*b modulo the prime, and the unreduced product is the exact integer product. The wide operations it is built from (256x256-bit product, 512-bit addition and subtraction modulo 2^512, reduction of a value below 2^508 modulo the prime) are exact for all operands.",
  [I], "every pair of canonical operands; every pair of 256-bit factors; every 512-bit addend; every dividend below 2^508", WHYF, [PF, PFH],
  [("schoolbook product with carries", PF + ": u512b::operator*"), ("Barrett-style reduction by a precomputed reciprocal and conditional corrections", PF + ": u512b::operator%"), ("product then remainder", PF + ": field_element::operator*, mul_non_mod")],
  TE, "all operands in the stated ranges; the product uses the lower layer's contract, proved in the same run")
P("F03", "Field equality and wide comparisons agree with the integers",
  "Two canonical field elements compare equal exactly when they are the same residue, and different exactly when they are not. The ordering comparisons on 512-bit values agree with the order of the integers they represent.",
  [I], "every pair of canonical elements, every pair of 512-bit values", "Every accept/reject decision of a verifier is such a comparison; a comparison that ignores a word accepts false statements that no honest-prover test produces.", [PF, PFH],
  [("limb-wise comparisons", PF + ": field_element::operator==, !=, u512b::operator!=, <, >, >=")], TE, "all operand pairs")
P("F04", "Conversions into the field and wide integers preserve the value",
  "A non-negative machine integer, an unsigned 64-bit integer, a 256-bit value or a decimal string converted to a field element or wide integer yields exactly that number (decimal strings: for every string of up to 77 digits that fits). The published modulus and the derived constants are those of the stated prime.",
  [I], "every non-negative int, every 64-bit unsigned value, every 256-bit value, every digit string of the stated lengths", "The tests convert small literals only; carries out of the low word of a decimal conversion need long numbers with particular digits.", [PF, PFH],
  [("constructors", PF + ": field_element(int), field_element(unsigned long long), u256b(char*), u512b(u256b), u512b(char*)"), ("decimal parsing by repeated multiply/add", PF + ": u256b::operator*, operator+"), ("init", PF + ": init")],
  TE, "quick: decimal strings of 1..77 digits at ten selected lengths; thorough: every length 1..77; everything else unrestricted")
P("F05", "Exports of field elements reproduce the value",
  "The bit stream, decimal string, big-number, bit-length and single-bit views of a field element or wide integer all describe exactly the number it holds: bit i is bit i, the length is that of the minimal binary representation, the big number is equal to it.",
  [I], "every canonical value, every 256- or 512-bit value, every bit position", "No test reads these views; they feed the commitment layer, where a wrong word boundary concerns only some bit positions.", [PF, PFH],
  [("word/bit index arithmetic", PF + ": bit_stream, bitLen, testBit, to_gmp_class, to_string")], TE, "all values and all positions")
P("F06", "Random challenges are canonical and carry full entropy",
  "Every random field element drawn is a canonical element (below the prime), for every outcome of the underlying generator. At least 93 bits of generator output drawn for a challenge each influence its value, and successive challenges use different generator outputs.",
  [I, H], "every outcome of the generator calls of two successive challenges", "Soundness error is the inverse of the challenge space; a challenge that loses most of its randomness still passes every honest run.", [PF, PFH],
  [("several generator calls combined into limbs and reduced", PF + ": random")], TE, "all outcomes of the rand() calls of two successive draws")

WHYC = "The tests run three circuit families with one unseeded random sequence; they fix inputs and challenges and never cover most gate-type/wiring combinations, one-gate layers or dummy inputs."
WHYE = "The tests only look at acceptance; a prover and verifier that agree on a wrong gate meaning or that mis-evaluate consistently still accept."
WHYS = "Every test prover is honest, so no test can see a check the verifier forgot, weakened or made predictable."
for b, nm, files, q, note in (
        ("C", "linear-time program", FT, "all gate kinds of the format (add, multiply, input, dummy, sum over a range, not, minus, xor, not-a-and-b, relay)", "circuit families with layers of 1..16 gates (quick), ..32 (thorough), depth 2..5"),
        ("T", "layer-by-layer C log C program", TT, "add, multiply and dummy gates", "circuit families with layers of 1..16 gates (quick), ..32 (thorough), depth 2..5"),
        ("B", "data-parallel program", BT, "add, multiply and dummy gates; 1, 2 and 4 copies", "circuit families with layers of 1..16 gates, depth 2..5, 1/2/4 copies"),
        ("M", "multithreaded program", MT, "add, multiply and dummy gates", "circuit families with layers of 1..128 gates (quick), wider (thorough), depth 2..9; threads in start order, every order by M04")):
    V, Pv = files[0], files[1]
    P(b + "01", f"The {nm} accepts every honest proof",
      f"In the {nm}, for every well-formed layered circuit, every input assignment and every sequence of challenges, the honest prover's proof is accepted. This includes layers with a single gate, dummy gates and inputs, and unequal layer widths.",
      [I, G], f"every input value and challenge, for the stated circuit families over {q}", WHYC, files,
      [("sum-check provers' bookkeeping tables", Pv), ("verifier's predicate evaluation", V), ("univariate polynomials", files[2])], TG, note)
    P(b + "02", f"The {nm} evaluates circuits by their gate semantics",
      f"In the {nm}, the output values computed for a circuit are those of its gates: " + ("addition, multiplication, sum over an operand range, 1-a, a-b, exclusive or as a+b-2ab, (1-a)b, copy, and zero for dummy gates" if b == "C" else "addition, multiplication, and zero for dummy gates and dummy inputs" + (", independently in every copy" if b == "B" else "")) + ". All arithmetic is in the prime field, every gate's operands are those the circuit file names, and no value outside the circuit influences an output.",
      [I, G], f"every input value, for the stated circuit families over {q}", WHYE, files,
      [("per-gate evaluation", Pv + ": evaluate"), ("reading the circuit", V + ": read_circuit")], TG, note)
    P(b + "03", f"The {nm}'s verifier makes every check soundness needs",
      f"In the {nm}, whenever the verifier accepts, then for every prover behaviour all the checks of the interactive protocol hold: the claimed output, each sum-check round, each layer's final evaluation against the circuit's own wiring, the hand-over of claims between layers, and the input layer against the public input. Every challenge is fresh randomness drawn after the prover committed to the message it protects, and the verifier relies on nothing the prover can change afterwards.",
      [I, H, G], "every prover message, every value of state shared with the prover, every challenge, for the stated circuit families", WHYS, files,
      [("round checks, final checks, input check", V + ": verify"), ("fresh challenges", V + ": verify, generate_randomness"), ("wiring predicates", V + ": add, mult, … predicate functions")], TG, note)
P("M04", "The multithreaded prover computes the same proof under every thread schedule",
  "In the multithreaded program, the worker threads the prover starts never conflict: while two threads may run at the same time, neither writes memory the other reads or writes, and every value a thread needs from another is complete before it starts. The proof produced, and the verdict, are therefore the same under every interleaving of the threads.",
  ["schedules", G], "every interleaving of the worker threads in a whole proof, for the stated circuit families", "A test sees the schedules its machine happens to produce; a thread that reads a slice another thread is still computing nearly always wins or loses the same way.", MT,
  [("slices per thread; partial sums in rets[id]", MT[1] + ": *_func"), ("start and join of the threads", MT[1] + ": sumcheck_*, V_res")],
  "symbolic execution with every memory access of the compiled threads recorded; per fork-join region SMT (z3, linear integer arithmetic) over memory words and concurrent pairs; counterexamples replayed under permuted thread orders and ThreadSanitizer",
  "circuit families with layers of 1..128 gates, depth 2..9, NUM_THREADS as in the source")
P("N01", "No proof run leaves its buffers or computes anything undefined",
  "For every well-formed circuit, every input and every challenge, a run of any of the five prover and verifier programs, from reading the circuit to the verdict, reads and writes only inside the objects it allocated, uses none after releasing it, and performs no undefined arithmetic (shift, overflow, index).",
  [I, G], "every input value and every path of a whole run, for the stated circuit families", "A table one entry too small is hidden by the allocator's rounding and by whatever lies behind it; the proof still verifies, and only some widths overflow at all.",
  sorted(set(FT + TT + BT + MT + ["src/linear_gkr/zk_prover.cpp", "src/linear_gkr/zk_verifier.cpp", "src/VPD/vpdR.cpp", "src/VPD/vpd_test.cpp", "src/VPD/inputvpd.cpp"])),
  [("work arrays sized from the widest layer", FT[1] + ": init_array"), ("half tables of the weights", FT[1] + ": sumcheck_phase1_init, sumcheck_phase2_init"), ("block tables", "src/linear_gkr/zk_verifier.cpp: read_circuit, beta_init")],
  "symbolic execution of the compiled programs over F_p terms with shadow memory (AddressSanitizer, UndefinedBehaviorSanitizer) on every path; SMT (z3) decides which paths exist; counterexamples replayed natively under the sanitizers",
  "circuit families with layers of 1..512 gates, depth 2..9, up to 4 copies; one fixed vector of challenges, masks and keys")
P("P01", "Low-degree polynomials evaluate, add and multiply correctly",
  "Every univariate polynomial type used for prover messages evaluates at any point to the value its coefficients define, and the sum and product operations return the polynomial of the sum and product.",
  [I], "every coefficient and every evaluation point in the field", "The tests use them only through honest proofs where two wrong evaluations can cancel.", ["src/linear_gkr/polynomial.cpp", "include/linear_gkr/polynomial.h"],
  [("Horner evaluation, coefficient-wise operations", "src/linear_gkr/polynomial.cpp")], TG, "all coefficients and points")
P("D01", "Programs report success exactly when every verification accepted",
  "Each command-line program announces a passing proof if and only if every verification it performed accepted; one rejection among several repetitions or blocks makes it report failure.",
  [I, C], "every vector of verdicts of the verifications a run performs", "All tests end in acceptance; a driver that drops a rejection passes all of them.", ["src/linear_gkr/main_fast_track.cpp", "src/linear_gkr/main_fast_para_track.cpp", "src/linear_gkr/main_zk.cpp", "src/traditional_gkr/bclogc.cpp", "src/traditional_gkr/bc_clogc.cpp"],
  [("verdict aggregation", "main functions")], "symbolic execution of the drivers with arbitrary verdicts, SMT over the verdict vector", "up to 4 verifications per run")
P("G01", "The circuit generator emits circuits that compute the advertised function",
  "The generator's output is a well-formed layered circuit whose outputs, as functions of its inputs, are the requested computation: the matrix product in the matrix modes (for every size, with the input layout it writes), and the stated gate pattern in the random and structured modes. The accompanying description of the circuit's structure is true of it.",
  [I, C], "every input value; the stated modes and sizes", "The tests only check that proofs about generated circuits are accepted, which holds for any well-formed circuit, whatever it computes.", ["bin/gen.cpp"],
  [("wiring index arithmetic", "bin/gen.cpp: main")], TV, "modes 0, 1, 2, 4; sizes stated in the evidence", "translation_validation")
for id, nm, f in (("R01", "data-parallel circuit compiler", "parser_sha_data_parallel.cpp"), ("R02", "Lanczos circuit compiler", "parser_lanczos.cpp"), ("R03", "SHA circuit compiler", "parser_sha.cpp")):
    P(id, f"The {nm} preserves the meaning of the program",
      f"The layered circuit the {nm} writes computes, for every input and in every copy, the values of the straight-line program it was given, with inputs routed as the wiring program says and constants as declared. Layering adds only relays and padding, each gate's operands lie in the layer below, and any structural description it writes is true of the circuit.",
      [I, G], "every input value; the stated programs, copy counts and wiring programs", "The tests compile two fixed programs and check only that some proof about the result is accepted.", [f],
      [("topological layering, relay insertion, padding, copy replication", f)], TV, "programs of up to 40 gates over all supported operations; 1, 2, 4 (8) copies", "translation_validation")

SG = "bin/sha256gen_merkle.py"
P("S01", "The SHA-256 generator writes the SHA-256 constraints and the Merkle wiring",
  "The block program the generator writes constrains its inputs exactly as one SHA-256 compression does: message schedule, 64 rounds, chaining, word/bit consistency and bit-ness of every purported bit, and nothing else. The wiring program feeds each block of a Merkle tree of the requested number of leaves from the right places: leaf blocks from fresh message words, inner blocks from their two children's outputs, shared constants, chaining values and root from the public inputs, and everything else fresh and distinct per block.",
  [I, C], "every value of the block's 7226 inputs; trees of 2 and 4 (thorough 8, 16) leaves with and without padding", "No stable test runs the generator; a wrong rotation or a child swapped at one level changes no other number and still yields a circuit with accepted proofs.", [SG],
  [("schedule, rounds and checks", SG + ": write_64_rounds and the write*function helpers"), ("tree wiring", SG + ": write_merkle_rdl")], TV,
  "one block program, trees of the stated sizes; the plain (unweighted) bit sums the generator emits are a recorded finding and are otherwise compared constraint by constraint", "translation_validation")
LG = "bin/gen_lanczos.py"
P("L01", "The Lanczos generator writes the resampling filter",
  "For a valid ratio and image dimension the circuit written is well formed and each output is the two-lobe Lanczos filter of one window: the window's pixels weighted by the filter's taps according to their distance from the centre in both directions, windows advancing by the ratio in both directions. Coefficients are those of the filter; padding is zero. Invalid dimensions are refused.",
  [I, C], "every pixel and coefficient value; the stated ratios and dimensions", "No stable test runs the generator; a tap or window index off by one still gives a circuit whose proofs are accepted.", [LG],
  [("coefficients", LG + ": filter_coeffs"), ("windows, taps, sums and padding", LG + ": print_circuit")], TV,
  "ratio 1..4 (8), up to 16x16 (48x48) pixels; the unweighted vertical pass is a recorded finding", "translation_validation")

ZV, ZP = "src/linear_gkr/zk_verifier.cpp", "src/linear_gkr/zk_prover.cpp"
VR, VM, VI = "src/VPD/vpdR.cpp", "src/VPD/vpd_test.cpp", "src/VPD/inputvpd.cpp"
ZF = [ZV, ZP, VR, VM, VI]
ZT = "symbolic execution of the real source over an ideal bilinear group (group elements and field elements are terms), SMT"
WHYZ = "The program is not part of the default build (its pairing library is not in the tree), so no test runs it at all."
P("Z01", "The zero-knowledge program accepts every honest proof",
  "In the zero-knowledge program, for every well-formed layered circuit (including data-parallel ones described by the structure file), every input assignment and every choice of masks, blindings, keys and challenges, the honest prover's proof is accepted.",
  [I, G], "every input, mask, blinding, key and challenge, for the stated circuit families over the gate kinds add, multiply, dummy, range sum, not, minus, xor, not-a-and-b, relay, weighted bit sum and bit test", WHYZ, ZF,
  [("masked sum-check and commitment openings", ZP), ("round, mask, final and input checks", ZV + ": verify"), ("commitments", "src/VPD")], ZT, "layers of 1..8 (thorough 16) gates, depth 2..7; 1, 2, 4, 8 parallel blocks; pairing group idealised")
P("Z02", "The zero-knowledge verifier rejects a proof with any message altered",
  "In the zero-knowledge program, an otherwise honest proof in which one message is altered is rejected, except for a negligible share of challenges and keys. This holds for each claimed output, round-polynomial coefficient, claimed layer value, mask sum, commitment and its companion, opening witness and its companion, and opened value.",
  [I, H], "every nonzero alteration of every message component, every input, mask and blinding", WHYZ + " A verifier that forgets one check accepts every honest proof.", ZF,
  [("round, mask, final and input checks", ZV + ": verify"), ("opening checks", "src/VPD: verify, check_commit")], ZT, "4 (thorough 9) circuits; the alteration, inputs and masks symbolic, challenges and keys at 8 fixed vectors")
P("Z03", "Polynomial commitments open to the committed polynomial's value and nothing else",
  "For each of the three commitment schemes (layer masks, sum-check masks, inputs): an honest commitment and opening is accepted and yields the committed polynomial's value at the point, for every polynomial, point, blinding and key. A digest or an opening witness whose companion is wrong is rejected, and no opening assembled from the published elements is accepted for a value other than that of the polynomial the digest commits to.",
  [I, H], "every coefficient, point, blinding, key, and every opening that is a combination of published elements", WHYZ, [VR, VM, VI],
  [("keys, commitment, quotient witnesses, pairing checks", "src/VPD: KeyGen, commit, prove, verify, check_commit")], ZT, "mask scheme with 3..9 (17) variables, input scheme with 1..5 (7), layer masks with 2; algebraic adversary in an ideal group")
P("Z04", "The zero-knowledge program evaluates circuits by their gate semantics",
  "In the zero-knowledge program, the output values computed for a circuit are those of its gates: addition, multiplication, zero for dummy gates, sum over an operand range, 1-a, a-b, exclusive or as a+b-2ab, (1-a)b, copy, the sum of the operands of a range weighted by powers of two from its first operand on, and the bit test a(1-a). All arithmetic is in the prime field and every gate's operands are those the circuit file names.",
  [I, G], "every input value, for the stated circuit families", WHYZ, [ZP, ZV], [("per-gate evaluation", ZP + ": evaluate"), ("reading the circuit", ZV + ": read_circuit")], ZT, "layers of 1..8 (thorough 16) gates, depth 2..7")

P("Z05", "Group exponentiation routines compute the scalar multiple",
  "In the commitment layer, every routine that raises group elements to a power by the bits of the exponent (binary tables, 15-bit windows, simultaneous 8-element sums with precomputed subset sums) returns exactly the scalar multiple, or the sum of scalar multiples of the published elements it is asked for.",
  [I], "every value of the symbolic bits, around every word and window boundary", WHYZ + " A table entry that is wrong matters only for exponents with that bit pattern.", [VR, VM, VI],
  [("bit tables", "src/VPD: precompute_g1, pre_exp"), ("windows and subset sums", VI + ": KeyGen_preprocessing, g1_exp, KeyGen, multi_scalar_calc")], ZT, "up to 8 symbolic bits per query at the stated positions, the other bits fixed to 3 (8) scalars")

TR = "include/linear_gkr/transcript.h"
P("Z06", "Every zero-knowledge challenge is drawn after the messages it answers",
  "In the zero-knowledge program, each random value the verifier uses is drawn from a transcript that already fixes every message of the prover it has to be unpredictable for: when a challenge (masking, combining, round, opening or output point) is first handed to the prover or used in a check, every message the prover produced earlier and the verifier's verdict reads has been recorded in the transcript. The verdict depends on the recorded messages, the public circuit and keys and those random values alone, never on another field of the prover.",
  [I, H], "every value of every prover message and of every field of the prover the verifier can read, on every accepting path, for the stated circuit families", WHYZ + " A message left out of the transcript, or a challenge drawn too early, changes no honest run.", [ZV, ZP, TR],
  [("recording and drawing", ZV + ": verify"), ("when a value reaches the prover", ZP + ": the calls it serves")], ZT, "4 (thorough 9) circuits; the hash an injective function of what was recorded")
P("Z07", "Challenges depend on every recorded message bit; the proof file holds the proof",
  "A challenge drawn from the transcript is the residue of a digest whose chain of compressed blocks fixes every bit of every field element, group element and earlier challenge recorded before it; digests are carried on entirely, and the challenges of one draw are residues of different digests. The compression function feeds each of its 512 input bits to AES-128 and returns both ciphertexts combined with their plaintexts; digest comparison is equality. The proof file holds every bit of the proof's messages and none of the randomness, and the reported proof size is its length.",
  [I, H], "every value of every recorded message, for the stated sequences of messages and draws; every 64-byte input of the compression function", WHYZ + " A transcript that forgets bits still gives the honest prover the same challenges as the verifier.", [TR, "include/infrastructure/my_hhash.h"],
  [("blocks, digests, residues", TR + ": proof_transcript::random"), ("message encoding", TR + ": container::output"), ("proof file and size", TR + ": output_to_file, get_proof_size"), ("compression function", "include/infrastructure/my_hhash.h")],
  "symbolic execution of LLVM IR, SMT (bit-vectors and uninterpreted functions)", "sequences of up to 7 (10) messages and draws; AES rounds uninterpreted; group elements of 24 bytes")
P("Z08", "A zero-knowledge proof reveals nothing about the inputs beyond the outputs",
  "In the zero-knowledge program, the joint distribution of all messages of the honest prover (commitments and companions, mask sums, round polynomials, claimed layer values, opening witnesses, opened values), over the prover's masks and blindings, depends on the circuit's inputs through the claimed outputs only: two input assignments with the same outputs give identically distributed proofs, for the same challenges and keys.",
  [I], "every pair of input assignments, every mask and blinding, for the stated circuits and challenge and key vectors", WHYZ + " A mask that is left out, reused or not random gives proofs that verify all the same.", [ZP, VR, VM, VI],
  [("layer masks and sum-check masks", ZP + ": generate_maskR, generate_maskpoly_*, sumcheck_*"), ("blindings", "src/VPD: commit, prove")], ZT, "4 (thorough 9) circuits; 2 (4) fixed vectors of challenges and keys")

def N(id, title, st, over, text, why, files, mech, reason):
    NA.append((dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
                    anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), reason))


N("Z00", "The zero-knowledge verifier makes every check against an arbitrary prover",
  "Whatever the prover does, an accepting zero-knowledge verifier has checked every relation soundness rests on.", [I, H], "every prover behaviour",
  "The program is not part of the build or the tests.", ["src/linear_gkr/zk_verifier.cpp"], [("verifier reads claims and masks from the prover's public fields", "src/linear_gkr/zk_verifier.cpp: verify")],
  "the protocol as coded commits the sum-check mask of a layer only after the masked claims of the layer before it, and draws new keys for it inside the proof, so 'every prover' is a claim about a different protocol; prover and verifier share one address space. Z02 (altered messages), Z03 (openings), Z06 and Z07 (challenges answer recorded messages) decide the parts that have a boundary in the code")

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p, *_ in PROPS: f.write(json.dumps(p, ensure_ascii=False) + "\n")
    for p, _ in NA: f.write(json.dumps(p, ensure_ascii=False) + "\n")
man = dict(version=1, setup_cmd="./setup.sh", checks=[dict(property=p["id"], quick_cmd=f"./check.py {p['id']} --quick", thorough_cmd=f"./check.py {p['id']} --thorough",
           evidence_file=f"evidence/{p['id']}.json", technique=t, level=l, level_note=n) for p, t, l, n in PROPS],
           not_applicable=[dict(property=p["id"], reason=r) for p, r in NA],
           notes="No hooks in /repo: the machinery compiles /repo's unmodified sources against a term-building field shim (engine/shim) or interprets their LLVM IR.")
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
