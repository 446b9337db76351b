"""Polynomials and command-line drivers."""
from core import *
from gkr import mul, addn
from explore import explore, concretise
from circuits import *


def horner(t, co, x):
    s = co[0]
    for c in co[1:]: s = t.mk("+", t.mk("*", s, x), c)
    return s


def poly_refs(t):
    S = t.symnode
    co = {n: [S(f"{n}{i}") for i in range(k)] for n, k in dict(l=2, m=2, q=3, r=3, c=4, d=4, e=5, f=5, g=6, h=6).items()}
    co["k"] = [t.const(0), S("k0")]
    x = S("x")
    ref = {n: horner(t, co[n], x) for n in "lkqceg"}
    for a, b in ("lm", "qr", "cd", "ef", "gh"): ref[f"{a}+{b}"] = t.mk("+", horner(t, co[a], x), horner(t, co[b], x))
    for a, b in ("lm", "qm", "ll"): ref[f"{a}*{b}"] = t.mk("*", horner(t, co[a], x), horner(t, co[b], x))
    for n in "lqceg": ref["c" + n] = co[n][0]; ref["z" + n] = co[n][-1]
    return ref


def polynomials():
    st, vio, und = Stats(), [], []
    pr = Program("poly", "poly.cpp")
    rnd = random.Random(SEED)
    for fl in (0, 1):
        for path, u in explore(lambda dec: pr.trace([], decisions=dec, flip=fl), st):
            if path is None: und += u; continue
            t = path.t
            outs = t.outs()
            canon = {e[1]: e[3] for e in t.log if e[0] == "O"}
            if t.verdict != "done": und.append(f"polynomials: {t.verdict}"); continue
            ref = poly_refs(t)
            for n, r in ref.items():
                if n not in outs: und.append(f"polynomials: {n} not observed"); continue
                pcz = [t.z(a) == t.z(b) if q else t.z(a) != t.z(b) for a, b, q in path.pc]
                res, m = check(pcz + [t.z(outs[n]) != t.z(r)], st)
                if res == "unsat" and canon[n]: continue
                if res == "unknown": und.append(f"polynomials: {n} solver unknown"); continue
                for k in range(20):
                    env = concretise(t, path.pc + ([(outs[n], r, False)] if res == "sat" else []), st, rnd, is_input=lambda _: False)
                    if env is None: break
                    v = t.evalp(env)
                    vd, obs, so = pr.native([], env)
                    got = dict(obs).get(n)
                    if got != v[r]:
                        vio.append((f"polynomial operation '{n}': native result {got}, polynomial arithmetic gives {v[r]}", {"values": env, "operation": n}))
                        return st, vio, und
                und.append(f"polynomials: {n}: not reproduced natively")
    return st, vio, und


MAINS = {"fast": "src/linear_gkr/main_fast_track.cpp", "trad": "src/traditional_gkr/bclogc.cpp", "bc": "src/traditional_gkr/bc_clogc.cpp",
         "para": "src/linear_gkr/main_fast_para_track.cpp", "zk": "src/linear_gkr/main_zk.cpp"}


def driver(prog, copies):
    """the program reports success exactly when every verification it ran accepted, and it ran one per copy"""
    st, vio, und = Stats(), [], []
    from gkr import DEFS
    vf = {"fast": "verifier_fast_track.cpp", "trad": "verifier_traditional.cpp", "bc": "verifier_bc_clogc.cpp", "para": "verifier_fast_para_track.cpp", "zk": None}[prog]
    if prog == "zk":
        import zk
        pr = zk.program("driver_zk.cpp", "zkmain", contracts=False)
        pr.extra_src = pr.extra_src + [os.path.join(REPO, MAINS[prog])]
        pr.nat_src = pr.nat_src + [os.path.join(REPO, MAINS[prog])]
    else: pr = Program(prog, "driver_stub.cpp", weak=[vf], defs=[DEFS[prog]], extra_src=[os.path.join(REPO, MAINS[prog])])
    circ = mixed([4, 4, 2], [0, 1], 3)
    files = {"test_circuit.txt": circ.text([1, 2, 3, 4])}
    args = ["test_circuit.txt", str(1 << copies), str(copies)] if prog != "zk" else ["circuit.txt", "meta.txt", "proof.bin"]
    want_n = (1 << copies) if prog == "trad" else 1
    rnd = random.Random(1)
    seen = set()
    for path, u in explore(lambda dec: pr.trace(args, decisions=dec, files=files), st, max_paths=80):
        if path is None: und += u; continue
        v = path.t.verdict
        seen.add(v)
        ok = v in (f"pass/accepted/{want_n}", f"fail/rejected/{want_n}") or (v.startswith("fail/rejected/") and int(v.split("/")[2]) <= want_n)
        if ok: continue
        env = concretise(path.t, path.pc, st, rnd, is_input=lambda _: False)
        if env is None: und.append(f"{prog}: {v}: path not concretised"); continue
        vd, obs, so = pr.native(args, env, files)
        if vd == v or not (vd.startswith("pass/accepted") or vd.startswith("fail/rejected")):
            vio.append((f"{MAINS[prog]}: printed/true verdict/number of verifications is {vd}, {want_n} verifications expected", {"args": args, "files": files, "verdicts": env}))
            return st, vio, und
        und.append(f"{prog}: {v} not reproduced ({vd})")
    if f"pass/accepted/{want_n}" not in seen: und.append(f"{prog}: no accepting path")
    return st, vio, und
