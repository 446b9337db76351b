"""Z08: zero knowledge.  With challenges and keys fixed, every message of the honest prover is a polynomial in the inputs and in the
prover's own randomness.  The check decides that the joint distribution of the messages depends on the inputs through the claimed outputs
only:  randomness that enters linearly makes a message set uniform on a coset, so it suffices that every combination of messages free
of it is (a) a fresh linear combination of the remaining randomness, or (b) a fixed polynomial of those and of the outputs.  The
identities of (b) are put to the solver; a combination that is neither is replayed natively as a distinguisher."""
import random
from fractions import Fraction as Q
from core import *
from circuits import *
import zk
S = os.path.join(VERIF, "engine/shim")


def program():
    pr = Program("zk", "zk_fs.cpp", weak={"inputvpd.cpp"}, extra_inc=[S + "/zkbn"], sym_inc=[S + "/zksym"], extra_src=[S + "/zk_sym.cpp"], nat_src=[S + "/zk_nat.cpp"],
                 defs=["ZK_CONTRACTS", "ZK_HIDE"], flags=["-maes", "-msse4.1"])

    def ld(mode):
        mv = zk._MV[mode]
        w = [f"_ZN9zk_prover{w}" for w in zk._WRAP + ["7prove_RE" + mv, "10prove_maskE" + mv, "11prove_inputE" + mv + mv[-3:], "5V_resEPKN11prime_field13field_elementES3_S3_ii"]]
        return ["-Wl,--wrap=" + x for x in w + ["_ZN4vpdR6KeyGenEi", "_ZN8vpd_test6KeyGenEi", "_ZN9input_vpd6KeyGenEi"]]
    pr.ld = ld
    pr.env = {"MALLOC_PERTURB_": "165", "ASAN_OPTIONS": "alloc_dealloc_mismatch=0:detect_leaks=0"}
    return pr


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = (r.get(m, 0) + k * c) % P
        if v: r[m] = v
        else: r.pop(m, None)
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            r[k] = (r.get(k, 0) + c * d) % P
    return {m: c for m, c in r.items() if c}


def polys(t, roots, env):
    """normal forms mod p of the given nodes, the names in env being numbers"""
    need, st = set(), list(roots)
    while st:
        n = st.pop()
        if n in need: continue
        need.add(n)
        if t.nodes[n][0] in "+-*": st += t.nodes[n][1:3]
    pf = {}
    for n in sorted(need):
        nd = t.nodes[n]
        if nd[0] == "S": pf[n] = {(): env[nd[1]] % P} if nd[1] in env else {(nd[1],): 1}
        elif nd[0] == "C": pf[n] = {(): nd[1] % P} if nd[1] % P else {}
        elif nd[0] == "*": pf[n] = pmul(pf[nd[1]], pf[nd[2]])
        else: pf[n] = padd(pf[nd[1]], pf[nd[2]], 1 if nd[0] == "+" else -1)
        if len(pf[n]) > 20000: raise EncodeError("polynomial too large")
    return [{m: c for m, c in pf[r].items() if c} for r in roots]


class Elim:
    """incremental elimination mod p over sparse rows; order(key) ranks pivots"""

    def __init__(self): self.rows = {}

    def reduce(self, row, comb, order):
        """row, comb: sparse; clears known pivots"""
        row, comb = dict(row), dict(comb)
        while row:
            m = max(row, key=order)
            if m not in self.rows: break
            r, c = self.rows[m]
            k = -row[m] * pow(r[m], -1, P) % P
            row, comb = padd(row, r, k), padd(comb, c, k)
        return row, comb

    def add(self, row, comb, order):
        row, comb = self.reduce(row, comb, order)
        if row: self.rows[max(row, key=order)] = (row, comb)
        return row, comb


def val(f, env):
    r = 0
    for m, c in f.items():
        v = c
        for x in m: v = v * env[x] % P
        r += v
    return r % P


def hiding(pr, circ, seed=1, timeout=60000):
    st, vio, und = Stats(), [], []
    args, files = zk.run_args(circ)
    t = pr.trace(args, decisions="1" * 20000, files=files)
    st.runs += 1
    if t.verdict != "accept": return st, vio, [f"{circ.name}: no run to the end with every comparison true ({t.verdict})"]
    rnd = random.Random(seed)
    names = [nd[1] for nd in t.nodes if nd[0] == "S"]
    pub = {n: rnd.randrange(2, P) for n in names if n[0] in "tk"}
    log = sorted((n.split(".", 2), x) for n, x in t.outs().items() if ".msg." in n)
    lab = [n[2] + "#" + str(int(n[0][1:])) for n, _ in log]
    V = polys(t, [x for _, x in log], pub)
    return analyse(pr, circ, t, log, lab, V, pub, args, st, vio, und, rnd, timeout)


def analyse(pr, circ, t, log, lab, V, pub, args, st, vio, und, rnd, timeout):
    outs = [V[i] for i in range(len(V)) if lab[i].startswith("output#")]
    view = [i for i in range(len(V)) if not lab[i].startswith("output#")]
    isx = lambda v: v[0] == "x"
    # randomness that enters every message linearly with known coefficients
    bad = {v for i in view for m in V[i] if len(m) > 1 for v in m}
    allv = {v for i in view for m in V[i] for v in m}
    lin = {v for v in allv if not isx(v) and v not in bad}
    order1 = lambda m: (len(m) == 1 and m[0] in lin, m)
    E1 = Elim()
    W = []          # combinations of messages free of the linear randomness
    for i in view:
        row, comb = E1.reduce(V[i], {i: 1}, order1)
        if row and order1(max(row, key=order1))[0]: E1.rows[max(row, key=order1)] = (row, comb)
        else: W.append((row, comb))
    # second level: rows linear in the remaining randomness
    ys = sorted(v for v in allv if not isx(v) and v not in lin)
    nonlin = lambda m: len(m) > 1 and any(not isx(v) for v in m)
    order2 = lambda m: (nonlin(m), len(m) == 1 and not isx(m[0]), m)
    E2 = Elim()
    fixed, A, B = [], [], []
    for row, comb in W:
        row, comb = E2.reduce(row, comb, order2)
        if not row: continue
        top = max(row, key=order2)
        E2.rows[top] = (row, comb)
    for top, (row, comb) in E2.rows.items():
        (B if nonlin(top) else A if order2(top)[1] else fixed).append((row, comb))
    base = [({(): 1}, "1")] + [(o, f"out{k}") for k, o in enumerate(outs)]
    lin1 = [(r, f"A{k}") for k, (r, _) in enumerate(A)]
    prod = lambda S1, S2: [(pmul(a, b), m + "*" + n) for i, (a, m) in enumerate(S1) for b, n in (S2[i:] if S1 is S2 else S2)]
    gens = {"fixed": base, "B": base + lin1 + prod(lin1, lin1)}
    span = {}
    orderx = lambda m: (len(m), m)
    for kind, g in gens.items():
        E = Elim()
        for k, (f, _) in enumerate(g): E.add(f, {k: 1}, orderx)
        span[kind] = (E, g)
    z = {v: z3.Int(v) for v in allv | {v for o in outs for m in o for v in m}}

    def term(f): return z3.Sum([z3.IntVal(c) * z3.Product([z[v] for v in m]) if m else z3.IntVal(c) for m, c in f.items()] + [z3.IntVal(0)])
    st.hide = {"circuit": circ.name, "messages": len(view), "linear": len(lin), "uniform": len(E1.rows), "fresh": len(A), "determined": len(B) + len(fixed)}
    for kind, rows in (("fixed", fixed), ("B", B)):
        E, g = span[kind]
        for row, comb in rows:
            rest, w = E.reduce(row, {}, orderx)
            # row = -sum w_k g_k + rest; the solver decides whether the remainder can be nonzero
            cert = {}
            for k, c in w.items(): cert = padd(cert, g[k][0], -c)
            diff = padd(row, cert, -1)
            r, _ = check([term(row) != term(cert)] if not diff else [term(diff) % P != 0], st, timeout, None) if len(diff) < 3000 else ("sat", None)
            if r == "unsat": continue
            who = sorted({lab[i] for i in comb}, key=lambda s: int(s.split("#")[1]))
            txt = f"zero knowledge: circuit {circ.name}: a combination of messages ({', '.join(who[:6])}{' ...' if len(who) > 6 else ''}) reveals more of the inputs than the outputs do"
            if r == "unknown":
                und.append(txt + " (unknown)")
                continue
            got = distinguish(pr, circ, t, lab, V, pub, outs, A, row, comb, ys, allv, rnd)
            if got: vio.append((txt, got))
            else: und.append(txt + ": not reproduced natively")
            return st, vio, und
    if not E1.rows: und.append(f"{circ.name}: no masked message seen")
    return st, vio, und


def distinguish(pr, circ, t, lab, V, pub, outs, A, row, comb, ys, allv, rnd):
    """two inputs with the same outputs, and prover randomness for each, on which the outputs and all fresh combinations agree and this one differs"""
    xs = sorted(n for n in {nd[1] for nd in t.nodes if nd[0] == "S"} if n[0] == "x")
    small = [0, 1, 2, 3]
    seen = {}
    pairs = []
    for k in range(4000):
        x = {n: rnd.choice(small) if k % 2 else rnd.randrange(0, 6) for n in xs}
        key = tuple(val(o, x) for o in outs)
        if key in seen and seen[key] != x: pairs.append((seen[key], x))
        seen.setdefault(key, x)
        if len(pairs) > 40: break
    for x, x2 in pairs:
        y = {v: rnd.randrange(P) for v in ys}
        # solve the fresh rows for the second input's randomness
        y2 = dict(y)
        for r, _ in reversed(A):
            top = max((m for m in r if len(m) == 1 and m[0] in y2), key=lambda m: m)
        y2 = solve(A, x, x2, y, ys, rnd)
        if y2 is None: continue
        a, b = val(row, {**x, **y}), val(row, {**x2, **y2})
        if a == b: continue
        res = []
        for xx, yy in ((x, y), (x2, y2)):
            stat = []
            for rep in range(2):
                env = {**pub, **xx, **yy}
                for n in {nd[1] for nd in t.nodes if nd[0] == "S"}:
                    if n not in env: env[n] = rnd.randrange(P)
                vd, obs, so = pr.native(*_args(circ, env))
                o = {n.split(".", 2)[2] + "#" + str(int(n.split(".")[0][1:])): v for n, v in obs if ".msg." in n}
                if vd != "accept" or any(lab[i] not in o for i in range(len(lab))): return None
                ev = lambda c: sum(k * o[lab[i]] for i, k in c.items()) % P
                stat.append(([o[l] for l in lab if l.startswith("output#")], [ev(c) for _, c in A], ev(comb)))
            res.append(stat)
        one, two = res
        if one[0] == one[1] and two[0] == two[1] and one[0][:2] == two[0][:2] and one[0][2] != two[0][2]:
            return {"circuit": circ.text() if hasattr(circ, "text") else circ.name, "first_inputs": {k: str(v) for k, v in x.items()}, "second_inputs": {k: str(v) for k, v in x2.items()},
                    "combination": {lab[i]: str(k) for i, k in list(comb.items())[:40]}, "first": str(one[0][2]), "second": str(two[0][2]),
                    "note": "outputs and all other combinations free of linear randomness agree; this value does not depend on the linear randomness"}
    return None


def _args(circ, env):
    args, files = zk.run_args(circ, env)
    return args, {k: v for k, v in env.items()}, files


def solve(A, x, x2, y, ys, rnd):
    """y2 with A_k(x2, y2) = A_k(x, y) for every k"""
    E = Elim()
    o = lambda m: (m != (), m)
    for r, _ in A:
        eq = {}
        for m, c in r.items():
            yv = [v for v in m if v in y]
            k = c
            for v in m:
                if v not in y: k = k * x2[v] % P
            key = (yv[0],) if yv else ()
            eq[key] = (eq.get(key, 0) + k) % P
        eq[()] = (eq.get((), 0) - val(r, {**x, **y})) % P
        eq = {m: c for m, c in eq.items() if c}
        row, _ = E.add(eq, {}, o)
        if row and max(row, key=o) == (): return None
    y2 = {v: y[v] for v in ys}
    for top, (row, _) in sorted(E.rows.items(), key=lambda kv: kv[0]):
        s = sum(c * (y2[m[0]] if m else 1) for m, c in row.items() if m != top) % P
        y2[top[0]] = -s * pow(row[top], -1, P) % P
    return y2


def tasks(prop, th):
    pr = program()
    par([lambda: pr.build("sym"), lambda: pr.build("nat")])
    fam = zk.fs_family(th) + [zk.zmixed(z, s) for z, s in (([4, 4, 2], 6), ([8, 4, 1], 7), ([4, 2, 4], 9), ([16, 2], 10), ([8, 8, 8, 4], 11), ([32, 8, 2], 12), ([2] * 6, 13))] + [zk.zpar([4, 4], 2, 8), zk.zpar([4, 4, 2], 4, 14)]
    if th: fam += [zk.zmixed(z, s) for z, s in (([64, 8], 15), ([16] * 4, 16), ([32, 32, 4], 17))]
    return [(f"{c.name}:{s}", lambda c=c, s=s: hiding(pr, c, s)) for c in fam for s in ((1, 2) if not th else (1, 2, 3, 4))], [
        f"circuits {[c.name for c in fam]}; {4 if th else 2} fixed vectors of challenges and keys, every input, mask and blinding symbolic"]
