"""Property -> proof tasks."""
import traceback
from core import *
from pool import run_tasks
import field, gkr, misc, transval, sha, lanczos, zk, trans, hiding, workers
from circuits import *


def ftask(F, fn):
    """wrap a field-layer check returning [(kind, msg, detail)]"""
    def go():
        F.stats = Stats(); F.fns = set()
        res = fn(F)
        return (F.stats, [(m, d) for k, m, d in res if k == "violation"], [m for k, m, d in res if k != "violation"], F.fns)
    return go


def specs(F, sps):
    return [(s.op, ftask(F, lambda F, s=s: field.run_spec(F, s))) for s in sps]


FIELD_ASSUME = ["clang 18 front end and -O0 lowering are trusted; the IR executor (engine/irx.py) models the instructions it accepts and refuses others",
                "glibc's rand() returns values in [0, 2^31)"]
GKR_ASSUME = ["the field layer is replaced by exact arithmetic in F_p (its own contract is decided by F01-F06 from the same source)",
              "identities decided over the rationals transfer to F_p because every denominator is a unit mod p",
              "circuit shapes are the listed families; inputs, prover messages and challenges are symbolic"]


def field_tasks(prop, th):
    F = field.Field()
    W = {s.op: s for s in field.WIDE + field.REM + field.FADD + field.FMUL + field.CMP}
    sp = lambda *ops: specs(F, [W[o] for o in ops])
    if prop == "F01":
        return sp("fadd", "fsub"), ["all canonical operands a, b < p (508 symbolic bits); no loop bound: every path of the compiled functions"]
    if prop == "F02":
        return sp("u512mul", "fmulnm", "fmul", "u512rem", "u512add", "u512sub", "u512ne", "u512gt", "u512ge", "u512lt"), [
            "fmul, fmulnm: all canonical operands; u512mul: all 256-bit operands; u512rem: all x < 2^508; wide add/sub/compare: all 512-bit operands"]
    if prop == "F03":
        return sp("feq", "fne", "u512ne", "u512gt", "u512ge", "u512lt"), ["all canonical / all 512-bit operands"]
    if prop == "F04":
        ds = [1, 2, 9, 19, 20, 38, 39, 40, 76, 77] if not th else list(range(1, 78))
        t = [("int", ftask(F, field.conv_int)), ("ull", ftask(F, field.conv_ull)), ("widen", ftask(F, field.conv_widen)), ("consts", ftask(F, field.consts))]
        t += [(f"parse256-{n}", ftask(F, lambda F, n=n: field.conv_parse(F, "parse256", n, 4))) for n in ds]
        t += [(f"parse512-{n}", ftask(F, lambda F, n=n: field.conv_parse(F, "parse512", n, 8))) for n in (ds if th else [1, 20, 77])]
        t += sp("u256add", "u256mul")
        return t, [f"all non-negative 32-bit ints, all 64-bit unsigned, all 256-bit values, all decimal strings of {ds} digits"]
    if prop == "F05":
        return [(n, ftask(F, f)) for n, f in (("bits", field.conv_bits), ("string", field.conv_string), ("gmp", field.conv_gmp), ("bitlen", field.conv_bitlen),
                                              ("testbit", field.conv_testbit))], ["all 512-bit values (string, bitLen), all canonical values (bit_stream, to_gmp_class), all 256-bit values and all 256 positions (testBit)"]
    if prop == "F06":
        return [("canonical", ftask(F, field.random_canon)), ("entropy", ftask(F, field.random_entropy))], ["all outcomes of the rand() calls of two successive challenges"]
    raise KeyError(prop)


def gkr_tasks(prog, kind):
    def make(prop, th):
        types = ALL if prog == "fast" else TRAD
        fam = family(types, th, prog, kind)
        pr = (gkr.adv_program if kind == "sound" else gkr.honest_program)(prog)
        pr.build("sym")
        pr.build("nat")
        fn = {"sound": gkr.soundness, "complete": gkr.completeness, "eval": gkr.evaluation}[kind]
        tasks = []
        for c in fam:
            for cp in ((0, 1, 2) if prog == "bc" else (0,)):
                if cp == 2 and max(map(len, c.layers)) > (8 if th else 4): continue
                def go(c=c, cp=cp):
                    st, v, u = fn(prog, pr, c, cp)
                    return st, v, u
                tasks.append((f"{c.name}/2^{cp}", go))
        wide = wide_family(types, th) if kind == "complete" else []
        for c in wide:
            for cp in ((0, 1, 3) if prog == "bc" else (0,)):
                if cp and sum(map(len, c.layers)) << cp > 1100: continue
                def go(c=c, cp=cp):
                    st, v, u = Stats(), [], []
                    for f in (1, 2) if not th else (1, 2, 3, 4):
                        a, b, d = gkr.completeness(prog, pr, c, cp, fixed=f, timeout=120000)
                        st.add(a); v += b; u += d
                        if v: break
                    return st, v, u
                tasks.append((f"{c.name}/2^{cp}/fixed", go))
        # the largest first
        size = {c.name: sum(map(len, c.layers)) for c in fam + wide}
        tasks.sort(key=lambda x: -size[x[0].split("/", 1)[0]])
        b = [f"circuits: {', '.join(c.name for c in fam)}" + ("; 2^0, 2^1, 2^2 copies" if prog == "bc" else ""),
             "every input value, every challenge" + (", every prover message and every value of the prover object's public fields at every point the verifier can observe" if kind == "sound" else "")]
        if wide: b.append(f"at {4 if th else 2} fixed challenge vectors, every input value: {', '.join(c.name for c in wide)}" + (" (up to 2^3 copies)" if prog == "bc" else ""))
        return tasks, b
    return make


SRC_FUN = {"fast": ["verifier_fast_track.cpp: read_circuit, verify, beta_init, direct_relay, predicates/sums", "prover_fast_track.cpp: evaluate, V_res, sumcheck_*", "polynomial.cpp"],
           "trad": ["verifier_traditional.cpp", "prover_clogc.cpp", "polynomial.cpp"], "bc": ["verifier_bc_clogc.cpp", "prover_bc_clogc.cpp", "polynomial.cpp"],
           "para": ["verifier_fast_para_track.cpp", "prover_fast_para_track.cpp: all, with every thread function", "polynomial.cpp"]}

CHECKS = {}
for p_ in ("F01", "F02", "F03", "F04", "F05", "F06"):
    CHECKS[p_] = dict(make=field_tasks, assume=FIELD_ASSUME, functions=[])
for base, prog in (("C", "fast"), ("T", "trad"), ("B", "bc"), ("M", "para")):
    for n, kind in ((1, "complete"), (2, "eval"), (3, "sound")):
        CHECKS[f"{base}{n:02d}"] = dict(make=gkr_tasks(prog, kind), assume=GKR_ASSUME, functions=SRC_FUN[prog])



def worker_tasks(prop, th):
    fam = family(TRAD, th, "para", "complete") + wide_family(TRAD, th)
    pr, nat = workers.log_program(), gkr.honest_program("para")
    pr.build("sym")
    nat.build("nat")
    t = [(c.name, lambda c=c: workers.schedule_free(pr, nat, c)) for c in sorted(fam, key=lambda c: -sum(map(len, c.layers)))]
    return t, [f"circuits: {', '.join(c.name for c in fam)}", "every interleaving of the worker threads of every fork-join region of a proof; all inputs and challenges (control flow does not depend on them)"]


CHECKS["M04"] = dict(make=worker_tasks, functions=SRC_FUN["para"], assume=GKR_ASSUME[:1] + [
    "memory accesses are those clang's -fsanitize=thread callbacks report for the repository's sources, and the operands of field-layer calls",
    "threads synchronise by std::thread start and join only; a program using other means does not build here and is reported as undecided",
    "memory freed inside a region is not reused within it"])


def memory_tasks(prop, th):
    tasks, b = [], []
    progs = {"zk": zk.program(), **{p: gkr.honest_program(p) for p in ("fast", "trad", "bc", "para")}}
    for p in progs.values(): p.env = {**p.env, **gkr.SAN}
    par([lambda p=p, m=m: p.build(m, True) for p in progs.values() for m in ("sym", "nat")])
    for n, p in progs.items():
        fam = zk.family(th) + zk.zwide(th) if n == "zk" else family(ALL if n == "fast" else TRAD, th, n, "complete") + wide_family(ALL if n == "fast" else TRAD, th)
        for c in fam:
            for cp in ((0, 1, 2) if n == "bc" else (0,)):
                if cp and sum(map(len, c.layers)) << cp > 1100: continue
                tasks.append((sum(map(len, c.layers)), f"{n}/{c.name}/2^{cp}", lambda n=n, p=p, c=c, cp=cp: gkr.memory(n, p, c, cp)))
        b.append(f"{n}: circuits {', '.join(c.name for c in fam)}" + ("; 2^0, 2^1, 2^2 copies" if n == "bc" else ""))
    tasks.sort(key=lambda x: -x[0])
    return [x[1:] for x in tasks], ["every input value and every path, at a fixed vector of challenges, masks, blindings and keys"] + b


CHECKS["N01"] = dict(make=memory_tasks, assume=GKR_ASSUME + ["an access outside an object is one AddressSanitizer's shadow memory reports on the path executed symbolically, undefined arithmetic one UndefinedBehaviorSanitizer reports",
    "the prime field's own arithmetic is decided by F01-F06"], functions=sorted({f for v in SRC_FUN.values() for f in v}) + ["zk_verifier.cpp", "zk_prover.cpp", "vpdR.cpp, vpd_test.cpp, inputvpd.cpp"])


def poly_tasks(prop, th):
    return [("polynomials", misc.polynomials)], ["all coefficients and evaluation points in F_p"]


def driver_tasks(prop, th):
    t = []
    for prog in ("fast", "trad", "bc", "para", "zk"):
        for cp in ((0, 1, 2) if prog in ("trad", "bc") else (0,)):
            t.append((f"{prog}/{1 << cp}", lambda prog=prog, cp=cp: misc.driver(prog, cp)))
    return t, ["every vector of verdicts of up to 4 verifications (bclogc), every verdict (linear_gkr_opt, linear_gkr_opt_parallel, linear_gkr_zk, bc_clogc)"]


def gen_tasks(prop, th):
    G = transval.Tool("bin/gen.cpp")
    t = []
    for m in (2, 4):
        for n in (1, 2, 4, 8, 16) + ((32,) if th or m == 4 else ()): t.append((f"gen {m} {n}", lambda m=m, n=n: transval.gen_matrix(G, m, n)))
    D0, W0 = ((2, 3, 4, 5, 6, 8, 11), (1, 2, 3, 4, 5, 7, 8)) if not th else (range(2, 17), range(1, 11))
    for d, w in [(d, w) for d in D0 for w in W0]:
        t.append((f"gen 0 {d} {w}", lambda d=d, w=w: transval.gen_simple(G, 0, d, w)))
    D1, W1 = ((2, 3, 4, 5, 8, 9), (6, 7, 8, 9)) if not th else (range(2, 13), (6, 7, 8, 9, 10))
    for d, w in [(d, w) for d in D1 for w in W1]:
        t.append((f"gen 1 {d} {w}", lambda d=d, w=w: transval.gen_simple(G, 1, d, w)))
    for w in range(1, 6): t.append((f"gen 5 2 {w}", lambda w=w: transval.gen_simple(G, 5, 2, w)))
    return t, [f"modes 2, 4: matrix sizes 1..16 and (mode 4, or thorough) 32; mode 0: depths {list(D0)}, widths 2^{list(W0)}; mode 1: depths {list(D1)}, widths 2^{list(W1)}; mode 5 at its depth 2, widths 2..32; all input values"]

def parser_tasks(kind, src, ops):
    def make(prop, th):
        T = transval.Tool(src)
        fam = transval.pws_family(ops, th)
        t = []
        for p in fam:
            def go(p=p):
                st, v, u = Stats(), [], []
                for rep in (1, 2, 4) + ((8,) if th else ()):
                    for sd in (1, 2):
                        a, b, c = transval.parser_check(T, kind, p, rep, sd)
                        st.add(a); v += b; u += c
                return st, v, u
            t.append((p.name, go))
        return t, [f"{len(fam)} straight-line programs over {ops} with up to {max(len(p.gates) for p in fam)} gates, 1, 2, 4" + (", 8" if th else "") + " copies, two wiring programs each; all input values",
                   "programs: " + ", ".join(p.name for p in fam)]
    return make


ALLOPS = ["+", "*", "XOR", "minus", "NAAB", "NOT", "SS"]
TV_ASSUME = ["the program and size families are the stated configurations; inputs are symbolic", "rand() is replaced by a tagged sequence so that each drawn input is a distinct symbol"]
CHECKS["P01"] = dict(make=poly_tasks, assume=GKR_ASSUME[:2], functions=["polynomial.cpp: all constructors, eval, operator+, operator*"])
CHECKS["D01"] = dict(make=driver_tasks, assume=["verifier::verify is replaced by an arbitrary verdict"], functions=["main (main_fast_track.cpp, main_fast_para_track.cpp, main_zk.cpp, bclogc.cpp, bc_clogc.cpp)", "run_verifications"])
CHECKS["G01"] = dict(make=gen_tasks, assume=TV_ASSUME, functions=["bin/gen.cpp: main"])
CHECKS["R01"] = dict(make=parser_tasks("sdp", "parser_sha_data_parallel.cpp", ALLOPS), assume=TV_ASSUME, functions=["parser_sha_data_parallel.cpp: read_circuit, DAG_to_layered, add_relay, read_rdl, merge_and_output"])
CHECKS["R02"] = dict(make=parser_tasks("lan", "parser_lanczos.cpp", ["+", "*"]), assume=TV_ASSUME, functions=["parser_lanczos.cpp: read_rdl, read_circuit, top_sort, normalize_and_output"])
CHECKS["R03"] = dict(make=parser_tasks("sha", "parser_sha.cpp", ALLOPS[:-1]), assume=TV_ASSUME, functions=["parser_sha.cpp: read_rdl, read_circuit, top_sort, normalize_and_output"])

CHECKS["S01"] = dict(make=sha.tasks, assume=["the script is run by Jython as installed; the program it writes is executed symbolically as it stands",
                                             "a bit sum is compared as a polynomial over Z; the meaning of each .pws operation is the one R01 decides for the parser"],
                     functions=["bin/sha256gen_merkle.py: write_64_rounds, write_merkle_rdl and everything they call"])

CHECKS["L01"] = dict(make=lanczos.tasks, assume=["the script is run by Jython as installed; the circuit it writes is executed symbolically as it stands",
                                                 "the numeric filter coefficients are compared with floating-point values to one unit of their own precision"],
                     functions=["bin/gen_lanczos.py: filter_coeffs, print_circuit"])

ZK_ASSUME = GKR_ASSUME[:2] + ["the pairing library (not in the repository) is replaced by an ideal bilinear group: an element is its discrete logarithm, the pairing multiplies",
                              "GMP integers are replaced by exact integers with symbolic residues; Fiat-Shamir challenges by fresh symbols"]
ZK_CON = ["the bit-level group routines (pre_exp, g1_exp, multi_scalar_calc and its tables) are used by their contract, which Z05 decides"]
ZKF = ["zk_verifier: read_circuit, verify, predicates", "zk_prover: evaluate, sumcheck_*, generate_mask*, query*, keygen_and_commit, prove_*", "vpdR, vpd_test, input_vpd: KeyGen, commit, prove, verify, check_commit"]
CHECKS["Z01"] = dict(make=zk.tasks, assume=ZK_ASSUME + ZK_CON, functions=ZKF)
CHECKS["Z02"] = dict(make=zk.tasks, assume=ZK_ASSUME + ZK_CON + ["an alteration that no check constrains at 8 fixed challenge vectors is one the verifier accepts with noticeable probability"], functions=ZKF)
CHECKS["Z03"] = dict(make=zk.tasks, assume=ZK_ASSUME + ZK_CON + ["algebraic group model: an adversary's group elements are combinations of published ones"], functions=ZKF[2:])
CHECKS["Z04"] = dict(make=zk.tasks, assume=ZK_ASSUME, functions=["zk_verifier::read_circuit", "zk_prover::evaluate"])
CHECKS["Z06"] = dict(make=zk.tasks, assume=ZK_ASSUME, functions=["zk_verifier: verify, generate_randomness", "zk_prover: the points at which its methods return"])
CHECKS["Z07"] = dict(make=trans.tasks, assume=["std::vector and the SSE instructions are replaced by their specification; the compression function in the transcript, and AES rounds in the compression function, are uninterpreted", "field_element::bit_stream by its contract (F05)", "the reduction modulo p is a function of the digest"],
                     functions=["proof_transcript: random, output_bit_stream, output_to_file, get_proof_size", "container: output and constructors", "my_hhash, aes128_enc, aes128_sec_extend, equals"])
CHECKS["Z08"] = dict(make=hiding.tasks, assume=ZK_ASSUME + ZK_CON + ["the prover's random values are independent and uniform (F06, GMP)", "hiding is decided for the discrete logarithms of group elements, which is stronger than for the elements"], functions=ZKF)
CHECKS["Z05"] = dict(make=zk.tasks, assume=ZK_ASSUME[1:], functions=["vpdR, vpd_test, input_vpd: pre_exp, precompute_g1", "input_vpd: KeyGen_preprocessing, g1_exp, multi_scalar_calc, KeyGen (window tables)"])

for p_ in ("G01", "R01", "R02", "R03", "S01", "L01"): CHECKS[p_]["level"] = "translation_validation"

BUDGET = {"quick": 700, "thorough": 2 * 3600}
LIMIT = {"quick": 500, "thorough": 1500}


def main(prop):
    c = CHECKS[prop]
    rep = Report(prop, c.get("level", "model_checking"))
    rep.assumptions = list(c["assume"])
    rep.functions = list(c["functions"])
    try:
        tasks, bounds = c["make"](prop, rep.thorough)
        rep.bounds = bounds
        res = run_tasks(tasks, BUDGET[rep.tier], limit=LIMIT[rep.tier])
    except (BuildError, EncodeError) as e:
        rep.undecided.append("cannot be encoded: " + str(e)[-800:])
        res = []
    except Exception:
        rep.undecided.append("engine error: " + traceback.format_exc()[-1500:])
        res = []
    fns = set()
    for name, r in res:
        rep.stats.add(r.stats)
        fns |= r.functions
        rep.undecided += r.undecided
        rep.notes += r.notes
        for w, d in r.violations: rep.violation(w, d, d.get("ident"))
    rep.functions += sorted(fns)
    rep.extra["slowest_tasks"] = [f"{n}: {r.secs:.1f}s" for n, r in sorted(res, key=lambda x: -x[1].secs)[:6]]
    rep.extra["tasks"] = len(res)
    rep.extra["decided_tasks"] = sum(1 for _, r in res if not r.undecided)
    rep.witness = rep.stats.sat
    for u in rep.undecided[:8]: print("UNDECIDED " + str(u)[:400])
    rep.finish()
