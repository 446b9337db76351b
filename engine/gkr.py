"""GKR-level obligations: completeness, gate semantics, and the checks an accepting verifier must have made."""
import random
from core import *
from circuits import *
from explore import *

DEFS = {"fast": "PROG_FAST", "trad": "PROG_TRAD", "bc": "PROG_BC", "para": "PROG_PARA"}


def honest_program(prog):
    if prog == "para":
        return Program(prog, "gkr_honest.cpp", defs=[DEFS[prog]], extra_src=[os.path.join(VERIF, "harness/par_threads.cpp")])
    return Program(prog, "gkr_honest.cpp", defs=[DEFS[prog]])


def adv_program(prog):
    pv = {"fast": "prover_fast_track.cpp", "trad": "prover_clogc.cpp", "bc": "prover_bc_clogc.cpp", "para": "prover_fast_para_track.cpp"}[prog]
    return Program(prog, "gkr_adv.cpp", weak=[pv], defs=[DEFS[prog]])


def run_args(prog, circ, mode, copies, env=None):
    if prog == 'zk':
        import zk
        a, f = zk.run_args(circ, env)
        return a + [mode], f
    """command line and files of one run; env: concrete inputs (None: symbolic)"""
    n = circ.ninputs()
    if prog != "bc":
        inp = None if env is None else [int(env.get(f"x{k}", 0)) for k in range(n)]
        return ["c.txt", mode], {"c.txt": circ.text(inp)}
    nb = 1 << copies
    vals = []
    for b in range(nb):
        for k in range(n):
            if circ.layers[0][k][0] == 3:
                vals.append(MAGIC_IN + b * n + k if env is None else int(env.get(f"x{b*n+k}", 0)))
    return ["c.txt", mode, str(nb), str(copies), "in.txt"], {"c.txt": circ.text([0] * n), "in.txt": " ".join(map(str, vals)) + "\n"}


# ------------------------------------------------------------------------------------- completeness
def completeness(prog, program, circ, copies=0, flips=(0, 1), seed=1, timeout=60000, fixed=None):
    """The honest prover is accepted for every input and every challenge (fixed: for the challenge vector drawn from that seed).  Returns (stats, violations, undecided)."""
    st, vio, und = Stats(), [], []
    rnd = random.Random(seed)
    for fl in flips:
        args, files = run_args(prog, circ, "verify", copies)

        def runner(dec):
            t = program.trace(args, decisions=dec, flip=fl, files=files, seed=seed)
            if fixed is not None:
                t.fix = lambda n: random.Random(f"{fixed}/{n}").randrange(2, 1 << 16) if n[0] != "x" else None
            return t
        nrange = 0
        for path, u in explore(runner, st, timeout=timeout):
            if path is None:
                und += u
                continue
            t = path.t
            nrange = max(nrange, t.ranges)
            if t.verdict == "accept":
                if t.taints():
                    und.append(f"{circ.name}: accepted, with values outside the field layer's contract: {t.taints()[:2]}")
                continue
            what = f"{prog}: honest prover not accepted ({t.verdict}) on circuit {circ.name}, copies 2^{copies}"
            ok = False
            for k in range(25):
                env = concretise(t, path.pc, st, rnd)
                if env is None:
                    break
                a2, f2 = run_args(prog, circ, "verify", copies, env)
                vd, _, so = program.native(a2, env, f2)
                if vd != "accept":
                    vio.append((what + f"; native replay: {vd}", {"circuit": f2, "challenges": {n: v for n, v in env.items()}, "native_verdict": vd, "args": a2,
                                                                     "path_condition_size": len(path.pc), "taints": t.taints()[:5]}))
                    ok = True
                    break
            if ok:
                return st, vio, und
            und.append(what + ": not reproduced natively")
        if nrange == 0:
            break       # no range branches: the other flips are the same run
    return st, vio, und


# ---------------------------------------------------------------------------------- memory
SAN = {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:alloc_dealloc_mismatch=0:detect_stack_use_after_return=0", "UBSAN_OPTIONS": "abort_on_error=1:print_stacktrace=1"}


def report(text):
    import re
    m = re.search(r"(AddressSanitizer: [\w-]+|runtime error: [^\n]*)", text)
    if not m: return None
    fr = re.findall(r"#\d+ 0x\w+ in (.*?) \S*?((?:src|include)/\S+:\d+)", text)
    return m.group(1) + (f" in {fr[0][0]} ({fr[0][1]})" if fr else "")


def memory(prog, program, circ, copies=0, fixed=1):
    """No path of a proof, whatever the inputs, leaves the objects it works on or computes something undefined."""
    st, vio, und = Stats(), [], []
    rnd = random.Random(7)
    args, files = run_args(prog, circ, "verify", copies)
    fx = lambda n: random.Random(f"{fixed}/{n}").randrange(2, 1 << 16) if n[0] != "x" else None

    def runner(dec):
        t = program.trace(args, decisions=dec, files=files, asan=True)
        t.fix = fx
        return t
    for path, u in explore(runner, st, timeout=120000):
        if path is None:
            und += u
            continue
        t = path.t
        what = report(t.stderr)
        if not what:
            if t.verdict not in ("accept", "reject", "done", "abort"): und.append(f"{circ.name}: the run ended with {t.verdict}: {t.stderr[-200:]}")
            continue
        msg = f"{prog}: {what}, circuit {circ.name}, copies 2^{copies}"
        seen = None
        for k in range(6):
            env = concretise(t, path.pc, st, rnd)
            if env is None: break
            a2, f2 = run_args(prog, circ, "verify", copies, env)
            _, _, so = program.native(a2, env, f2, asan=True)
            seen = report(so)
            if seen: break
        if seen:
            vio.append((msg + f"; native replay: {seen}", {"circuit": f2, "args": a2, "report": so[-3000:]}))
            return st, vio, und
        und.append(msg + ": not reproduced natively")
    return st, vio, und


# ---------------------------------------------------------------------------------- gate semantics
def gate_ref(t, ty, u, v, prev):
    one = t.const(1)
    if ty == 0: return t.mk("+", prev[u], prev[v])
    if ty == 1: return t.mk("*", prev[u], prev[v])
    if ty == 2: return t.const(0)
    if ty in (4, 10): return prev[u]
    if ty == 5:
        s = t.const(0)
        for k in range(u, v): s = t.mk("+", s, prev[k])
        return s
    if ty == 6: return t.mk("-", one, prev[u])
    if ty == 7: return t.mk("-", prev[u], prev[v])
    if ty == 8: return t.mk("-", t.mk("+", prev[u], prev[v]), t.mk("*", t.const(2), t.mk("*", prev[u], prev[v])))
    if ty == 9: return t.mk("-", prev[v], t.mk("*", prev[u], prev[v]))
    if ty == 12:
        s = t.const(0)
        for k in range(u, v + 1): s = t.mk("+", s, t.mk("*", t.const(1 << (k - u)), prev[k]))
        return s
    if ty == 13: return t.mk("*", prev[u], t.mk("-", one, prev[v]))
    raise ValueError(ty)


def ref_outputs(t, circ, off=0):
    lay = [t.symnode(f"x{off+k}") if ty == 3 and val is None else t.const(val or 0) if ty == 3 else t.const(0) for k, (ty, val, *_) in enumerate(circ.layers[0])]
    if len(lay) == 1: lay.append(t.const(0))
    for l in circ.layers[1:]:
        lay = [gate_ref(t, ty, u, v, lay) for ty, u, v in l]
        if len(lay) == 1: lay.append(t.const(0))
    return lay


def ref_outputs_num(circ, xs):
    lay = [(xs[k] if val is None else val) % P if ty == 3 else 0 for k, (ty, val, *_) in enumerate(circ.layers[0])]
    if len(lay) == 1: lay.append(0)
    for l in circ.layers[1:]:
        nxt = []
        for ty, u, v in l:
            nxt.append({0: lambda: lay[u] + lay[v], 1: lambda: lay[u] * lay[v], 2: lambda: 0, 10: lambda: lay[u], 5: lambda: sum(lay[u:v]), 6: lambda: 1 - lay[u],
                        7: lambda: lay[u] - lay[v], 8: lambda: lay[u] + lay[v] - 2 * lay[u] * lay[v], 9: lambda: lay[v] - lay[u] * lay[v],
                        12: lambda: sum(lay[k] << (k - u) for k in range(u, v + 1)), 13: lambda: lay[u] * (1 - lay[v])}[ty]() % P)
        lay = nxt
        if len(lay) == 1: lay.append(0)
    return lay


def evaluation(prog, program, circ, copies=0, seed=1):
    st, vio, und = Stats(), [], []
    rnd = random.Random(seed)
    args, files = run_args(prog, circ, "eval", copies)

    def runner(dec):
        return program.trace(args, decisions=dec, files=files, seed=seed)
    nb = (1 << copies) if prog == "bc" else 1
    for path, u in explore(runner, st):
        if path is None:
            und += u
            continue
        t = path.t
        outs = t.outs()
        what = f"{prog}: evaluation of circuit {circ.name} differs from the gate semantics"
        bad = None
        if t.verdict != "done":
            bad = ("verdict " + t.verdict, [])
        else:
            ref = []
            for b in range(nb):
                ref += ref_outputs(t, circ, b * circ.ninputs())
            if len(ref) != len(outs):
                bad = ("number of outputs", [])
            else:
                pcz = [t.z(a) == t.z(b) if q else t.z(a) != t.z(b) for a, b, q in path.pc]
                pairs = [(outs[f"out{k}"], ref[k]) for k in range(len(ref))]
                res, _ = check(pcz + [z3.Or([t.z(a) != t.z(r) for a, r in pairs])], st)
                for k, (a, r) in enumerate(pairs):
                    if res == "unsat":
                        break
                    if a == r:
                        continue
                    res, _ = check(pcz + [t.z(a) != t.z(r)], st)
                    if res == "unknown":
                        und.append(f"{circ.name} output {k}: solver unknown")
                    elif res == "sat":
                        bad = (f"output {k}", [(a, r, False)])
                        break
                    else:
                        res = "next"
        if bad:
            done = False
            for k in range(25):
                env = concretise(t, path.pc + bad[1], st, rnd)
                if env is None:
                    break
                a2, f2 = run_args(prog, circ, "eval", copies, env)
                vd, obs, so = program.native(a2, env, f2)
                want = []
                for b in range(nb):
                    want += ref_outputs_num(circ, [env.get(f"x{b*circ.ninputs()+k}", 0) for k in range(circ.ninputs())])
                got = [x for _, x in obs]
                if vd != "done" or got != want:
                    vio.append((f"{what} ({bad[0]}); native replay confirms", {"circuit": f2, "args": a2, "got": got, "want": want, "verdict": vd}))
                    done = True
                    break
            if done:
                return st, vio, und
            und.append(what + f" ({bad[0]}): not reproduced natively")
    return st, vio, und


# ----------------------------------------------------------------------- what an accepting run checked
def eq_tab(t, r):
    """eq(r, j) for all j, bit i of j <-> r[i]"""
    one = t.const(1)
    tab = [one]
    for x in r:
        o = t.mk("-", one, x)
        tab = [t.mk("*", y, o) for y in tab] + [t.mk("*", y, x) for y in tab]
    # tab index: built LSB first -> reorder
    return tab


def dot(t, xs, ys):
    s = t.const(0)
    for x, y in zip(xs, ys):
        s = t.mk("+", s, t.mk("*", x, y))
    return s


def addn(t, *xs):
    s = xs[0]
    for x in xs[1:]:
        s = t.mk("+", s, x)
    return s


def mul(t, *xs):
    s = xs[0]
    for x in xs[1:]:
        s = t.mk("*", s, x)
    return s


def mle(t, vals, r):
    return dot(t, vals, eq_tab(t, r))


class Protocol:
    """The transcript of one accepting symbolic run, as the prover sees it."""

    def __init__(self, t):
        self.t = t
        self.calls = []     # [name, params, args{}, msgs[(what, node)]]
        revealed = set()
        self.fresh_fail = []
        for e in t.log:
            if e[0] == "N" and e[1].startswith("call "):
                w = e[1].split()
                self.calls.append([w[1], [int(x) for x in w[2:]], {}, [], set(revealed)])
            elif e[0] == "O" and e[1].startswith("arg.") and self.calls:
                self.calls[-1][2][e[1][4:]] = e[2]
                for s in t.support(e[2]):
                    if s.startswith("c"):
                        revealed.add(s)
                self.calls[-1][4] = set(revealed)
            elif e[0] == "O" and e[1].startswith("msg.") and self.calls:
                self.calls[-1][3].append((e[1][4:], e[2]))


def arr(args, name):
    out = []
    while f"{name}.{len(out)}" in args:
        out.append(args[f"{name}.{len(out)}"])
    return out


class Shape(Exception):
    pass


def fresh(t, node, known):
    """the challenge carries randomness the prover had not seen when it sent the message"""
    sup = {s for s in t.support(node) if s.startswith("c")}
    return bool(sup - known)


def obligations(prog, t, circ, copies, pick):
    """Equations the textbook verifier checks on this transcript, as (name, lhs, rhs) node pairs, plus freshness failures.
    pick: which of the prover's statements of v_u is the binding one."""
    pr = Protocol(t)
    calls = pr.calls
    obl, notfresh = [], []
    pos = 0

    def nxt(name):
        nonlocal pos
        while pos < len(calls) and calls[pos][0] != name:
            # initialisation-only calls may be skipped
            if calls[pos][0] in ("evaluate", "V_res", "phase0_init", "phase1_init", "phase2_init", "proof_init"):
                pos += 1
                continue
            raise Shape(f"expected {name}, got {calls[pos][0]}")
        if pos >= len(calls):
            raise Shape(f"expected {name}, transcript ended")
        pos += 1
        return calls[pos - 1]

    depth = len(circ.layers)
    top = depth if prog == "fast" else depth - 1
    outs = [n for c in calls if c[0] == "evaluate" for w, n in c[3] if w.startswith("out.")]
    vres = [c for c in calls if c[0] == "V_res"]
    one, zero = t.const(1), t.const(0)
    prev = None
    S = None
    known_before_out = set()
    for i in range(top, 0, -1):
        # find sumcheck_init
        j = pos
        while j < len(calls) and calls[j][0] != "sumcheck_init":
            j += 1
        if j >= len(calls):
            raise Shape(f"layer {i}: no sumcheck")
        init = calls[j]
        pos = j + 1
        if init[1][0] != i:
            raise Shape(f"expected layer {i}, got {init[1][0]}")
        a = init[2]
        alpha, beta, r0, r1, rb = a["alpha"], a["beta"], arr(a, "r0"), arr(a, "r1"), arr(a, "rb")
        gates = circ.layers[i - 1] if prog == "fast" and i >= 2 else circ.layers[i] if prog != "fast" else None
        ng = bits(len(gates)) if gates is not None else bits(circ.ninputs())
        nin = len(circ.layers[i - 2]) if prog == "fast" and i >= 2 else len(circ.layers[i - 1]) if prog != "fast" else circ.ninputs()
        nu = bits(nin)
        if len(r0) != ng or len(r1) != ng:
            raise Shape(f"layer {i}: {len(r0)} point coordinates for {ng} bits")
        if prog == "bc" and len(rb) != copies:
            raise Shape("block coordinates")
        if i == top:
            # the claim about the output layer
            if vres:
                claim = [n for w, n in vres[0][3] if w == "vres"][0]
                S = t.mk("*", alpha, claim)
                known = set()
                for c in calls:
                    if c is vres[0]: break
                    known |= c[4]
            else:
                claim = mle(t, outs, r0 + rb)
                S = t.mk("*", alpha, claim)
                known = set()
            for x in r0 + rb:
                if not fresh(t, x, known):
                    notfresh.append(f"output point coordinate is not a fresh challenge")
            obl.append((f"top claim: second point unused", beta, zero))
        else:
            pvu, pvv, pru, prv, prb, known = prev
            # same points as the previous layer's challenges, fresh combination
            for n, (x, y) in enumerate(zip(r0, pru)):
                obl.append((f"layer {i}: first point coordinate {n} carried over", x, y))
            for n, (x, y) in enumerate(zip(r1, prv)):
                obl.append((f"layer {i}: second point coordinate {n} carried over", x, y))
            for n, (x, y) in enumerate(zip(rb, prb)):
                obl.append((f"layer {i}: block coordinate {n} carried over", x, y))
            for nm, x in (("alpha", alpha), ("beta", beta)):
                if not fresh(t, x, known):
                    notfresh.append(f"layer {i}: {nm} is not a fresh challenge")
            sa = {s for s in t.support(alpha)}; sb = {s for s in t.support(beta)}
            if not ((sa - sb) or (sb - sa)):
                notfresh.append(f"layer {i}: alpha and beta are not independent")
            S = t.mk("+", t.mk("*", alpha, pvu), t.mk("*", beta, pvv))
        chal = {"0": [], "1": [], "2": []}
        pend = None      # (phase, index, known-when-sent)
        ph_polys = {"0": [], "1": [], "2": []}
        fieldvu = {}
        k = pos
        fin = None
        while k < len(calls):
            c = calls[k]
            nm = c[0]
            if nm == "sumcheck_init":
                break
            if nm.startswith("phase") and nm.endswith("_update"):
                ph, j = nm[5], c[1][0]
                if pend and pend[0] == ph or (pend and ph != pend[0]):
                    chal[pend[0]].append((c[2]["prev"], pend[2])) if len(chal[pend[0]]) < len(ph_polys[pend[0]]) else None
                if j != len(ph_polys[ph]):
                    raise Shape(f"layer {i}: phase {ph} round {j} out of order")
                coef = [n for w, n in c[3] if w in "abcd" and len(w) == 1]
                ph_polys[ph].append(coef)
                pend = (ph, j, c[4])
            elif nm in ("phase1_init", "phase2_init", "finalize"):
                if pend and "prev" in c[2] and len(chal[pend[0]]) < len(ph_polys[pend[0]]):
                    chal[pend[0]].append((c[2]["prev"], pend[2]))
                if nm == "finalize":
                    fin = c
            for w, n in c[3]:
                if w.startswith("field.v_u."):
                    fieldvu[w[10:]] = n
            k += 1
            if nm == "finalize":
                break
        pos = k
        if fin is None:
            raise Shape(f"layer {i}: no final claims")
        if len(ph_polys["1"]) != nu or len(ph_polys["2"]) != nu or (prog == "bc" and len(ph_polys["0"]) != copies):
            raise Shape(f"layer {i}: number of rounds {len(ph_polys['1'])},{len(ph_polys['2'])} for {nu} bits")
        for ph in "012":
            if len(chal[ph]) != len(ph_polys[ph]):
                raise Shape(f"layer {i}: challenge of phase {ph} not observed")
            for n, (cn, kn) in enumerate(chal[ph]):
                if not fresh(t, cn, kn):
                    notfresh.append(f"layer {i}: phase {ph} round {n}: the challenge is not fresh randomness")
        rbn = [x for x, _ in chal["0"]]
        ru = [x for x, _ in chal["1"]]
        rv = [x for x, _ in chal["2"]]
        fm = dict(fin[3])
        vu, vv = fm["vu"], fm["vv"]
        if pick == "field" and "p2i" in fieldvu:
            vu = fieldvu["p2i"]
        D = None
        if prog == "fast" and i == 1:
            def eqmle(x, y):
                s = one
                for p_, q in zip(x, y):
                    s = mul(t, s, addn(t, t.mk("-", t.mk("-", one, p_), q), mul(t, t.const(2), p_, q)))
                return s
            D = t.mk("+", mul(t, alpha, eqmle(r0, ru)), mul(t, beta, eqmle(r1, ru)))

        def ev(coef, x):
            s = coef[0]
            for y in coef[1:]:
                s = t.mk("+", t.mk("*", s, x), y)
            return s
        for ph in "012":
            for n, coef in enumerate(ph_polys[ph]):
                off = mul(t, D, vu) if (D is not None and ph == "2") else None
                l = t.mk("+", ev(coef, zero), ev(coef, one))
                if off is not None: l = t.mk("+", l, off)
                obl.append((f"layer {i}: phase {ph} round {n} sum check", l, S))
                S = ev(coef, chal[ph][n][0])
                if off is not None: S = t.mk("+", S, off)
        # final check of the layer
        if gates is not None:
            e0, e1 = eq_tab(t, r0), eq_tab(t, r1)
            eu, evv = eq_tab(t, ru), eq_tab(t, rv)
            tot = zero
            for g, (ty, u, v) in enumerate(gates):
                if ty == 2: continue
                w = t.mk("+", mul(t, alpha, e0[g]), mul(t, beta, e1[g]))
                if ty == 5:
                    for jj in range(u, v):
                        tot = t.mk("+", tot, mul(t, w, eu[jj], evv[0], vu))
                    continue
                vi = 0 if ty in (6, 10) else v
                f = gate_ref(t, ty, 0, 1, [vu, vv])
                tot = t.mk("+", tot, mul(t, w, eu[u], evv[vi], f))
            if prog == "bc":
                be = one
                for x, y in zip(rb, rbn):
                    be = mul(t, be, t.mk("+", mul(t, x, y), mul(t, t.mk("-", one, x), t.mk("-", one, y))))
                tot = mul(t, be, tot)
        else:
            tot = mul(t, D, vu)
        obl.append((f"layer {i}: final evaluation check", S, tot))
        knw = set()
        for c in calls[:pos]:
            knw |= c[4]
        prev = (vu, vv, ru, rv, rbn, knw)
    if pos < len(calls) and any(c[0] == "sumcheck_init" for c in calls[pos:]):
        raise Shape("extra layers")
    # the claims about the input layer
    vu, vv, ru, rv, rbn, knw = prev
    n = circ.ninputs()
    vals = []
    for b in range(1 << copies if prog == "bc" else 1):
        lay = [(t.symnode(f"x{b*n+k}") if val is None else t.const(val)) if ty == 3 else t.const(0) for k, (ty, val, *_) in enumerate(circ.layers[0])]
        if n == 1: lay.append(zero)
        vals += lay
    if prog == "fast":
        obl.append(("input layer check", vu, mle(t, vals, ru)))
    else:
        i0, i1 = mle(t, vals, ru + rbn), mle(t, vals, rv + rbn)
        obl.append(("input layer check", None, (vu, i0, vv, i1)))
    return obl, notfresh


def soundness(prog, program, circ, copies=0, seed=1, timeout=60000):
    """Whenever the verifier accepts, every check of the protocol holds, for every prover behaviour and challenge."""
    st, vio, und = Stats(), [], []
    rnd = random.Random(seed)
    args, files = run_args(prog, circ, "x", copies)
    accepted = 0

    def runner(dec):
        return program.trace(args, decisions=dec, files=files, seed=seed)
    # first try the all-equal path so that the accepting path is explored first
    for path, u in explore(runner, st, first="1" * 400, max_paths=200, timeout=timeout):
        if path is None:
            und += u
            continue
        t = path.t
        if t.verdict != "accept":
            continue
        accepted += 1
        best = None
        for pick in (("field", "final") if prog == "fast" else ("final",)):
            try:
                obl, nf = obligations(prog, t, circ, copies, pick)
            except Shape as e:
                r = ("shape", str(e), None)
                best = best or r
                continue
            r = decide(t, path, obl, nf, st, rnd, timeout)
            if r is None:
                best = None
                break
            # keep the failure of the later candidate only if none succeeds
            best = r if best is None or best[0] != "fail" else best
        if best is None:
            continue
        kind, msg, cex = best
        what = f"{prog}: verifier accepts although '{msg}' does not hold (circuit {circ.name}, copies 2^{copies})"
        if kind == "unknown":
            und.append(f"{circ.name}: {msg}: undecided")
            continue
        if kind == "shape":
            what = f"{prog}: verifier accepts a transcript that does not follow the protocol: {msg} (circuit {circ.name})"
        rep = replay_accept(prog, program, circ, copies, t, path, cex, st, rnd)
        if rep:
            vio.append((what + "; native replay accepts", rep))
            return st, vio, und
        und.append(what + ": not reproduced natively")
    if accepted == 0:
        und.append(f"{circ.name}: no accepting path (vacuous)")
    return st, vio, und


def decide(t, path, obl, nf, st, rnd, timeout):
    """None if every obligation is implied by the path condition; else (kind, message, counterexample constraints)"""
    if nf:
        return ("fail", nf[0], [])
    envs = []
    names = [nd[1] for nd in t.nodes if nd[0] == "S"]
    eqs = [(a, b) for a, b, q in path.pc if q]
    flat = []
    for nm, l, r in obl:
        if l is None:
            vu, i0, vv, i1 = r
            flat.append((nm, ("sep", vu, i0, vv, i1)))
        else:
            flat.append((nm, (l, r)))
    ds = []
    for nm, o in flat:
        if len(o) == 2:
            ds.append((nm, t.mk("-", o[0], o[1]), None))
        else:
            # either both claims are checked, or a fresh random combination of them is
            ds.append((nm, t.mk("-", o[1], o[2]), t.mk("-", o[3], o[4])))
    de = [t.mk("-", a, b) for a, b in eqs]
    for _ in range(2):
        env = {n: rnd.randrange(P) for n in names}
        envs.append(t.evalp(env))
    unk = None
    known = set()
    for c in Protocol(t).calls:
        known |= c[4]
    for nm, d, d2 in ds:
        if t.nodes[d] == ("C", 0) and (d2 is None or t.nodes[d2] == ("C", 0)):
            continue
        if d2 is not None:
            ok = matches(t, d, de, envs, st) and matches(t, d2, de, envs, st)
            if ok:
                continue
            # combination  alpha*d + beta*d2 with fresh alpha, beta
            found = False
            for e in de:
                fr = sorted(s for s in t.support(e) if s.startswith("c") and s not in known)
                if len(fr) >= 1:
                    for a in fr:
                        for b in fr + [None]:
                            if a == b: continue
                            comb = t.mk("+", t.mk("*", t.symnode(a), d), t.mk("*", t.symnode(b), d2) if b else d2)
                            if matches(t, comb, [e], [t.evalp(en) for en in _envs(t, rnd)], st):
                                found = True
                                break
                        if found: break
                if found: break
            if found:
                continue
            return ("fail", nm, [(t.mk("+", d, d2), t.const(0), False)])
        if matches(t, d, de, envs, st):
            continue
        # general implication
        pcz = [t.z(a) == t.z(b) if q else t.z(a) != t.z(b) for a, b, q in path.pc]
        r, m = check([t.z(d) != 0], st, timeout)
        if r == "unsat":
            continue
        if len(pcz) <= 400:
            r, m = check(pcz + [t.z(d) != 0], st, min(timeout, 20000))
            if r == "unsat":
                continue
        cex = [(d, t.const(0), False)]
        if r == "unknown":
            # a concrete counterexample mod p decides; otherwise undecided
            unk = unk or ("unknown-or-fail", nm, cex)
            return ("fail", nm, cex)
        return ("fail", nm, cex)
    return None


def _envs(t, rnd):
    names = [nd[1] for nd in t.nodes if nd[0] == "S"]
    return [{n: rnd.randrange(P) for n in names} for _ in range(2)]


def matches(t, d, de, envs, st):
    """d is (a constant times) one of the checked differences, or zero: the solver confirms"""
    n0, n1 = envs[0], envs[1]
    if d >= len(n0):
        # node added after evaluation
        return any(check([t.z(d) != t.z(e)], st)[0] == "unsat" or check([t.z(d) + t.z(e) != 0], st)[0] == "unsat" for e in de if _cand(t, d, e))
    if n0[d] == 0 and n1[d] == 0:
        return check([t.z(d) != 0], st)[0] == "unsat"
    for e in de:
        if n0[e] and n1[e]:
            k = n0[d] * pow(n0[e], -1, P) % P
            if n1[d] == k * n1[e] % P:
                if check([t.z(d) != zconst(k) * t.z(e)], st)[0] == "unsat":
                    return True
    return False


def _cand(t, d, e):
    x, y = t.shadow[d], t.shadow[e]
    return x == y or (x + y) % P == 0


def solve_messages(t, pc, rnd, want, tries=6):
    """Concrete prover messages mod p that make every checked equation of the accepting path true while `want` (a list of
    disequalities) holds.  Challenges are fixed at random; then each equation is solved for one message in which it is linear
    and which no earlier equation pinned."""
    names = [nd[1] for nd in t.nodes if nd[0] == "S"]
    eqs = [(a, b) for a, b, q in pc if q]
    neq = [(a, b) for a, b, q in pc if not q]
    for _ in range(tries):
        env = {n: (rnd.randrange(0, 1000) if n.startswith("x") else rnd.randrange(P)) for n in names}
        pinned = set()
        good = True
        for a, b in eqs:
            v = t.evalp(env)
            if v[a] == v[b]:
                pinned |= {s for s in (t.support(a) | t.support(b)) if s.startswith("m")}
                continue
            sup = [s for s in (t.support(a) | t.support(b)) if s.startswith("m") and s not in pinned]
            # prefer the latest message
            sup.sort(key=lambda s: -int(s[1:].split(".")[0]))
            solved = False
            for s in sup:
                e0 = dict(env); e0[s] = 0
                e1 = dict(env); e1[s] = 1
                e2 = dict(env); e2[s] = 2
                f = []
                for e in (e0, e1, e2):
                    vv = t.evalp(e); f.append((vv[a] - vv[b]) % P)
                if (f[2] - 2 * f[1] + f[0]) % P == 0 and f[1] != f[0]:
                    env[s] = -f[0] * pow(f[1] - f[0], -1, P) % P
                    # earlier equations must still hold
                    solved = True
                    break
            if not solved:
                good = False
                break
            pinned |= {s for s in (t.support(a) | t.support(b)) if s.startswith("m")}
        if not good:
            continue
        v = t.evalp(env)
        if all(v[a] == v[b] for a, b in eqs) and all(v[a] != v[b] for a, b in neq) and all((v[a] == v[b]) == q for a, b, q in want):
            return env
    return None


def replay_accept(prog, program, circ, copies, t, path, cex, st, rnd):
    env = solve_messages(t, path.pc, rnd, cex or [])
    if env is None:
        env = concretise(t, path.pc + (cex or []), st, rnd)
    if env is None:
        return None
    a2, f2 = run_args(prog, circ, "x", copies, env)
    vd, obs, so = program.native(a2, env, f2)
    if vd == "accept":
        return {"circuit": f2, "args": a2, "values": env, "native_verdict": vd}
    return None
