"""The zero-knowledge program over an ideal bilinear group: completeness, rejection of altered proofs, and its commitment schemes."""
import random
from core import *
from circuits import *
from explore import *

S = os.path.join(VERIF, "engine/shim")
ZK = [0, 1, 2, 5, 6, 7, 8, 9, 10, 12, 13]
ZKLIVE = [t for t in ZK if t != 2]


def program(harness="zk_honest.cpp", prog="zk", contracts=True, weak=()):
    pr = Program(prog, harness, weak={"inputvpd.cpp", *weak} if contracts else set(weak), extra_inc=[S + "/zkbn"], sym_inc=[S + "/zksym"],
                   extra_src=[S + "/zk_sym.cpp"], nat_src=[S + "/zk_nat.cpp"], defs=["ZK_CONTRACTS"] if contracts else [], flags=["-maes", "-msse4.1"])
    pr.env = {"MALLOC_PERTURB_": "165", "ASAN_OPTIONS": "alloc_dealloc_mismatch=0:detect_leaks=0"}      # memory never written holds junk
    return pr


class ZCircuit(Circuit):
    """meta: per layer (is_parallel, block_size, repeat_num, log_block_size, log_repeat_num)"""

    def __init__(self, name, layers, meta=None):
        super().__init__(name, layers)
        self.meta = meta or [(0, 0, 0, 0, 0)] * len(layers)

    def metatext(self):
        return "\n".join(" ".join(map(str, m)) for m in self.meta) + "\n"


def op(t, u, v):
    if t in (6, 10): return (t, u, 0)
    if t == 5: return (5, min(u, v), max(u, v) + 1)
    if t == 12: return (12, max(min(u, v), max(u, v) - 62), max(u, v))    # the program asserts at most 63 terms
    if t == 13: return (13, u, u)
    if t == 2: return (2, 0, 0)
    return (t, u, v)


def pad(g):
    g = list(g)
    while len(g) & (len(g) - 1): g.append((2, 0, 0))
    return g


def zall(ty, n=4):
    g = sorted({op(ty, u, v) for u in range(n) for v in range(n)})
    return ZCircuit(f"all-pairs-ty{ty}-n{n}", [inputs(n), pad(g) if len(g) > 1 else g])


def zmixed(sizes, seed, name=None, dummies=(), types=ZK):
    rnd = random.Random(seed * 104729 + len(sizes))
    layers = [inputs(sizes[0], dummies)]
    k = 0
    for m, n in zip(sizes, sizes[1:]):
        lay = []
        for _ in range(n):
            lay.append(op(types[(k * 7 + seed) % len(types)], rnd.randrange(m), rnd.randrange(m)))
            k += 1
        layers.append(lay)
    return ZCircuit(name or "zk-" + "x".join(map(str, sizes)) + f"-s{seed}", layers)


def zpar(sizes, rep, seed, serial=(), types=ZK):
    """rep equal blocks side by side, each a random circuit of the given sizes; layers listed in serial are declared non-parallel"""
    rnd = random.Random(seed * 7907)
    lg = lambda n: n.bit_length() - 1
    layers, meta = [inputs(sizes[0] * rep)], [(1, sizes[0], rep, lg(sizes[0]), lg(rep))]
    k = 0
    for m, n in zip(sizes, sizes[1:]):
        blk = []
        for _ in range(n):
            blk.append(op(types[(k * 5 + seed) % len(types)], rnd.randrange(m), rnd.randrange(m)))
            k += 1
        lay = []
        for b in range(rep):
            for t, u, v in blk:
                o = b * m
                lay.append((t, u + o, 0 if t in (6, 10) else v + o) if t != 2 else (2, 0, 0))
        layers.append(lay)
        meta.append((1, n, rep, lg(n), lg(rep)))
    meta = [m if i not in serial else (0,) + m[1:] for i, m in enumerate(meta)]
    return ZCircuit("zkpar-" + "x".join(map(str, sizes)) + f"-r{rep}-s{seed}" + ("-serial" + "".join(map(str, serial)) if serial else ""), layers, meta)


def zblock(name, m, rep, blk):
    """one parallel layer: the given block, rep times, over blocks of m inputs"""
    lg = lambda n: n.bit_length() - 1
    lay = [(t, u + m * b, v + m * b) for b in range(rep) for t, u, v in blk]
    return ZCircuit("zk-" + name, [inputs(m * rep), lay], [(1, m, rep, lg(m), lg(rep)), (1, len(blk), rep, lg(len(blk)), lg(rep))])


def zwide(th=False):
    """for completeness at fixed vectors of challenges, masks, blindings and keys"""
    return [zmixed([256, 4], 90), zmixed([128, 2], 91), zmixed([64, 32, 4], 92), zmixed([16, 16, 16], 93), zmixed([64, 2], 94), zmixed([2, 64, 2], 95),
            zpar([8, 16, 8], 8, 96), zpar([16, 8], 4, 97)] + ([zmixed([512, 8], 98), zmixed([32] * 4, 99), zpar([16, 16, 16], 8, 100), zpar([2, 4, 2], 32, 101)] if th else [])


def family(th=False):
    fam = [zall(t) for t in ZKLIVE]
    fam += [zmixed(s, sd) for s, sd in (([4, 4, 4], 1), ([2, 8, 4], 2), ([8, 2, 8], 3), ([4, 8, 2, 4], 4), ([2, 2, 2, 2], 5), ([8, 8], 6), ([2] * 7, 7))]
    fam += [zmixed([1, 2, 2], 9, "one-input"), zmixed([4, 1, 4], 10, "one-gate-middle"), zmixed([4, 2, 1], 11, "one-output", types=ZKLIVE),
            zmixed([1, 1, 1], 12, "one-everywhere", types=ZKLIVE), zmixed([8, 4, 2], 13, "dummy-inputs", dummies=(1, 6))]
    fam += [zpar([4, 4, 2], 2, 1), zpar([2, 4, 4], 2, 2), zpar([4, 8], 2, 3), zpar([2, 2, 2], 4, 4), zpar([4, 4, 4], 2, 5, serial=(2,)), zpar([4, 4, 4], 2, 6, serial=(1,)),
            zpar([2, 2], 4, 7), zpar([2, 2], 8, 8), zblock("sum-to-block-end", 4, 2, [(5, 0, 4), (5, 1, 3)]), zblock("expsum-to-block-end", 4, 2, [(12, 0, 3), (12, 1, 2)]),
            zblock("sum-to-block-end-r4", 2, 4, [(5, 0, 2), (5, 1, 2)])]
    if th:
        fam += [zall(t, 8) for t in ZKLIVE] + [zmixed([4, 4, 4, 4], s) for s in range(20, 30)] + [zmixed([16, 16], 31), zmixed([8, 8, 8], 32)]
        fam += [zpar([4, 4, 4], 4, s) for s in range(40, 46)]
    return fam


def run_args(circ, env=None):
    inp = None if env is None else [int(env.get(f"x{k}", 0)) for k in range(circ.ninputs())]
    return ["c.txt", "m.txt"], {"c.txt": circ.text(inp), "m.txt": circ.metatext()}


def completeness(program, circ, timeout=60000, seed=1, fixed=None):
    st, vio, und = Stats(), [], []
    rnd = random.Random(seed)
    nrange = 0
    for fl in (0, 1):
        args, files = run_args(circ)
        def runner(dec):
            t = program.trace(args, decisions=dec, flip=fl, files=files, seed=seed)
            if fixed is not None:
                t.fix = lambda n: random.Random(f"{fixed}/{n}").randrange(2, 1 << 16) if n[0] != "x" else None
            return t
        for path, u in explore(runner, st, timeout=timeout):
            if path is None:
                und += u
                continue
            t = path.t
            nrange = max(nrange, t.ranges)
            if t.verdict == "accept":
                if t.taints(): und.append(f"{circ.name}: accepted, with values outside the field layer's contract: {t.taints()[:2]}")
                continue
            what = f"zero-knowledge program: honest prover not accepted ({t.verdict}) on circuit {circ.name}"
            for k in range(12):
                env = concretise(t, path.pc, st, rnd)
                if env is None: break
                a2, f2 = run_args(circ, env)
                vd, _, so = program.native(a2, env, f2)
                if vd != "accept":
                    vio.append((what + f"; native replay: {vd}", {"circuit": f2, "values": env, "native_verdict": vd, "output": so[-600:], "taints": t.taints()[:5]}))
                    return st, vio, und
            und.append(what + ": not reproduced natively")
        if nrange == 0: break
    return st, vio, und


# ------------------------------------------------------------------------------------------ altered proofs
_F = "N11prime_field13field_elementE"
_WRAP = [f"22sumcheck_phase1_updateE{_F}i", f"22sumcheck_phase2_updateE{_F}i", f"29sumcheck_phase1_updatelastbitE{_F}i", f"29sumcheck_phase2_updatelastbitE{_F}i",
         f"19sumcheck_finalroundE{_F}iS1_", f"17sumcheck_finalizeE{_F}", f"20sumcheck_phase2_initE{_F}PKS1_S3_", "27generate_maskpoly_after_rhoEii", "8evaluateEv",
         "17keygen_and_commitEiRd", "13sumcheck_initEiiiiRKN11prime_field13field_elementES3_PS2_S4_PS1_S5_", "25generate_maskpoly_pre_rhoEii"]
_MV = {"sym": "St6vectorI9mpz_classSaIS1_EERS1_", "nat": "St6vectorI10__gmp_exprIA1_12__mpz_structS3_ESaIS4_EERS4_"}


def tamper_program():
    pr = program("zk_tamper.cpp")

    def ld(mode):
        mv = _MV[mode]
        return [f"-Wl,--wrap=_ZN9zk_prover{w}" for w in _WRAP + ["7prove_RE" + mv, "10prove_maskE" + mv, "11prove_inputE" + mv + mv[-3:]]]
    pr.ld = ld
    return pr


# ------------------------------------------------------------------------------------------ Fiat-Shamir order
def fs_program():
    pr = Program("zk", "zk_fs.cpp", weak={"inputvpd.cpp"}, extra_inc=[S + "/zkbn"], sym_inc=[S + "/zksym"], extra_src=[S + "/zk_sym.cpp"], nat_src=[S + "/zk_nat.cpp", S + "/fs_native.cpp"],
                 defs=["ZK_CONTRACTS", "ZK_OWN_TRANSCRIPT"], flags=["-maes", "-msse4.1"])

    def ld(mode):
        mv = _MV[mode]
        w = [f"_ZN9zk_prover{w}" for w in _WRAP + ["7prove_RE" + mv, "10prove_maskE" + mv, "11prove_inputE" + mv + mv[-3:], "5V_resEPKN11prime_field13field_elementES3_S3_ii"]]
        if mode == "nat": w += ["_ZNK11prime_field13field_elementneERKS0_", "_ZNK11prime_field13field_elementeqERKS0_"]
        return ["-Wl,--wrap=" + x for x in w]
    pr.ld = ld
    pr.env = {"FS_NATIVE": "1"}
    return pr


def fiat_shamir(pr, circ, timeout=30000):
    """Every message the verdict depends on is fixed by the transcript from which the first challenge handed out after it is drawn."""
    st, vio, und = Stats(), [], []
    args, files = run_args(circ)
    t = pr.trace(args, decisions="1" * 20000, files=files)
    st.runs += 1
    if t.verdict != "accept": return st, vio, [f"{circ.name}: no run to the end with every comparison true ({t.verdict})"]
    log = sorted((n.split(".", 2), x) for n, x in t.outs().items())
    used = set()
    for e in t.events():
        if t.nodes[e[2]] != t.nodes[e[3]]: used |= t.support(e[2]) | t.support(e[3])
    content, drawn, sent, revealed = {}, {}, [], set()
    todo = []
    for (k, kind, what), x in log:
        if kind == "cont": content.setdefault(what, []).append(x)
        elif kind == "draw": drawn[t.nodes[x][1]] = what.split("_")[0]
        elif kind == "msg":
            if t.nodes[x][1] in used: sent.append((what, t.nodes[x][1]))
        else:
            for c in sorted(t.support(x)):
                if c in drawn and c not in revealed:
                    revealed.add(c)
                    todo.append((c, list(sent)))
    rnd = random.Random(3)
    done = set()
    for c, before in todo:
        K = content.get(drawn[c], [])
        mine = {s for _, s in before} - done
        sub = [(z3.Real(s), z3.Real(s + "'")) for s in mine]
        r, _ = check([t.z(x) == z3.substitute(t.z(x), *sub) for x in K if t.support(x) & mine] + [z3.Or(*[a != b for a, b in sub])], st, timeout)
        if r == "unsat": continue
        for what, s in before:
            if s in done: continue
            with_s = [x for x in K if s in t.support(x)]
            a, b = z3.Real(s), z3.Real(s + "'")
            eqs = [t.z(x) == z3.substitute(t.z(x), (a, b)) for x in with_s]
            r, m = check(eqs + [a != b], st, timeout)
            if r == "unsat": continue
            txt = f"zero-knowledge verifier: challenge {c} is handed to the prover after message {what} ({s}) but is drawn from a transcript that does not fix it; circuit {circ.name}"
            done.add(s)
            if r == "unknown":
                und.append(txt + " (unknown)")
                continue
            names = [nd[1] for nd in t.nodes if nd[0] == "S"]
            env = {n: rnd.randrange(1, P) for n in names if n[0] == "d"}
            env.update({n: rnd.randrange(1, 1000) for n in names if n[0] != "d"})
            # the whole history before the draw is the same in both runs
            got = []
            for delta in (0, 1):
                e2 = dict(env)
                e2[s] = (e2[s] + delta) % P
                vd, obs, so = pr.native(args, e2, run_args(circ, env)[1])
                o = {n.split(".", 2)[2]: x for n, x in obs if ".draw." in n}
                got.append(o.get(c[1:]))
            if got[0] is not None and got[0] == got[1]:
                vio.append((txt, {"circuit": files, "message": s, "challenge": c, "values": {k: env[k] for k in list(env)[:40]}, "same_challenge": got[0]}))
            else: und.append(txt + f": not reproduced natively {got} {vd} {so[-200:]}")
        if len(vio) > 8: break
    if not todo: und.append(f"{circ.name}: no challenge was seen")
    return st, vio[:3], und


def points(t, k, rnd_name="t"):
    """the k-th concrete choice of all challenges (and of the secret keys)"""
    r = random.Random(f"pt{k}")
    return [(z3.Real(nd[1]), z3.RealVal(r.randrange(2, 1 << 12))) for nd in t.nodes if nd[0] == "S" and nd[1][0] in "tm"]


def altered(program, circ, site, idx, item, timeout=30000, last=False):
    """Every path on which the altered proof is accepted.  A comparison the alteration does not enter is decided by Z01;
    every other one is taken both ways."""
    st, vio, und = Stats(), [], []
    args, files = run_args(circ)
    what = f"zero-knowledge verifier accepts a proof with message {site} #{idx} (item {item}) altered; circuit {circ.name}"
    rnd = random.Random(7)
    work, seen = [("", 0)], 0
    while work:
        dec, fixed = work.pop()
        seen += 1
        if seen > 200:
            und.append(what + ": too many paths")
            break
        t = program.trace(args + [site, str(idx), str(item)], decisions=dec + "1" * 5000, files=files)
        st.runs += 1
        ds = [nd[1] for nd in t.nodes if nd[0] == "S" and nd[1][0] == "d"]
        names = [nd[1] for nd in t.nodes if nd[0] == "S"]
        vals = [t.evalp({n: (rnd.randrange(1 << 20) if n[0] == "x" else rnd.randrange(P)) for n in names}) for _ in range(2)]
        eqs, nes, cur = [], [], ""
        for e in t.events():
            i, a, b, out = e[1:5]
            if any(v[a] != v[b] for v in vals):
                if i >= fixed: work.append((cur + "0", i + 1))
                (eqs if out else nes).append((a, b))
            cur += str(out)
        if t.verdict != "accept": continue
        vio2, und2 = _accepted(program, circ, t, ds, names, eqs, nes, what, (site, idx, item), st, timeout, last)
        vio += vio2
        und += und2
        if vio: break
    return st, vio, und


def _accepted(program, circ, t, ds, names, eqs, nes, what, where, st, timeout, last):
    """is there an alteration accepted on this path whatever the challenges and keys"""
    D = [z3.Real(d) for d in ds]
    # at the fixed point 0 a round polynomial matters through its value at 0 (the last coefficient) and the sum of its coefficients
    nz = z3.Or(D[-1] != 0, z3.Sum(D) != 0) if last else z3.Or(*[x != 0 for x in D])
    diff = [t.z(a) - t.z(b) for a, b in eqs]
    ndiff = [t.z(a) - t.z(b) for a, b in nes]
    cons = []
    for k in range(8):
        sub = points(t, k)
        cons += [z3.substitute(x, *sub) == 0 for x in diff]
        if k == 0: cons += [z3.substitute(x, *sub) != 0 for x in ndiff]
        r, m = check(cons + [nz], st, timeout)
        if r != "sat" or not diff: break
    if r == "unsat": return [], []
    if r == "unknown": return [], [what + ": solver unknown"]
    rnd = random.Random(7)
    mod = model_mod_p(m, names)
    for k in range(8):
        env = {n: (rnd.randrange(0, 1 << 20) if n[0] == "x" else rnd.randrange(P)) for n in names}
        if (k or last) and mod:
            env.update({n: v for n, v in mod.items() if n[0] not in "tm" and (n[0] != "x" or v < (1 << 31)) and (k < 4 or n[0] == "d")})
        if not any(env.get(d, 0) for d in ds): continue
        a2, f2 = run_args(circ, env)
        vd, _, so = program.native(a2 + [where[0], str(where[1]), str(where[2])], env, f2)
        if vd == "accept": return [(what, {"circuit": f2, "values": env, "native_verdict": vd, "site": where})], []
    return [], [what + ": not reproduced natively"]


def sites(program, circ):
    args, files = run_args(circ)
    t = program.trace(args + ["list", "0", "0"], files=files)
    out = []
    for n in t.notes():
        w = n.split()
        if w and w[0] == "SITE": out += [(w[1], int(w[2]), i) for i in range(int(w[3]))]
    # the last layer only relays the inputs: its second phase is run at the fixed point 0, what it says beyond that is not used
    rounds = circ.layers and (len(circ.layers[0]) - 1).bit_length() or 1
    last = {"sumcheck_phase2_update": rounds - 1, "sumcheck_phase2_updatelastbit": 1, "finalround": 1}
    top = {}
    for s, k, _ in out: top[s] = max(top.get(s, 0), k)
    return [(s, k, i, s in last and k > top[s] - last[s]) for s, k, i in out if not (s == "claim-v" and k == top[s])]


# ------------------------------------------------------------------------------------------ commitment schemes
def vpd_program():
    return program("zk_vpd.cpp", "vpd")


def _mle(t, xs, rs):
    v = list(xs)
    for r in rs:       # lowest variable first
        v = [t.mk("+", t.mk("*", t.mk("-", t.const(1), r), v[2 * j]), t.mk("*", r, v[2 * j + 1])) for j in range(len(v) // 2)]
    return v[0]


def vpd_value(t, scheme, d):
    """the committed polynomial at the opened point"""
    X = lambda k: t.symnode(f"x{k}")
    T = lambda k: t.symnode(f"t{k}")
    m, a = (lambda *f: _prod(t, f)), (lambda f: _sum(t, f))
    if scheme == "R":
        return a([X(0), m(X(1), T(0)), m(X(2), T(0), T(0)), m(X(3), T(1)), m(X(4), T(1), T(1)), m(X(5), T(0), T(1))])
    if scheme == "mask":
        s = [X(2 * d)]
        for i in range(d): s += [m(X(2 * i), T(i), T(i)), m(X(2 * i + 1), T(i))]
        for k, i in enumerate((d // 2 - 1, d - 2)):
            for e in (5, 4, 3): s.append(m(X(2 * d + 1 + 3 * k + 5 - e), *[T(i)] * e))
        return a(s)
    z, y0, y1 = t.symnode("z"), t.symnode("y0"), t.symnode("y1")
    return a([_mle(t, [X(k) for k in range(1 << d)], [T(i) for i in range(d)]), m(z, y0), m(z, y1, T(d - 1))])


def _prod(t, f):
    r = f[0]
    for x in f[1:]: r = t.mk("*", r, x)
    return r


def _sum(t, f):
    r = f[0]
    for x in f[1:]: r = t.mk("+", r, x)
    return r


def vpd_honest(pr, scheme, d, timeout=60000):
    st, vio, und = Stats(), [], []
    rnd = random.Random(d)
    a0 = [scheme, str(d), "honest"]
    for path, u in explore(lambda dec: pr.trace(a0, decisions=dec), st, timeout=timeout):
        if path is None:
            und += u
            continue
        t, o = path.t, path.t.outs()
        what = f"{scheme} commitment, {d} variables: "
        want = None
        if t.verdict != "accept": bad, extra = f"honest opening not accepted ({t.verdict})", []
        else:
            if t.taints():
                und.append(what + f"values outside the encoding: {t.taints()[:2]}")
                continue
            want = vpd_value(t, scheme, d)
            r, _ = check([t.z(x) == t.z(y) if q else t.z(x) != t.z(y) for x, y, q in path.pc] + [t.z(o["answer0"]) != t.z(want)], st, timeout)
            if r == "unsat": continue
            if r == "unknown":
                und.append(what + "solver unknown")
                continue
            bad, extra = "answer is not the committed polynomial's value", [(o["answer0"], want, False)]
        for k in range(12):
            env = concretise(t, path.pc + extra, st, rnd)
            if env is None: break
            vd, obs, so = pr.native(a0, env, {})
            val = dict(obs).get("answer0")
            if vd != "accept" or (want is not None and val != t.evalp(env)[want]):
                vio.append((what + bad + f"; native replay: {vd}", {"values": env, "args": a0, "output": so[-400:]}))
                return st, vio, und
        und.append(what + bad + ": not reproduced natively")
    return st, vio, und


def vpd_binding(pr, scheme, d, timeout=60000):
    """no opening made of published elements is accepted for a value other than the committed polynomial's, whatever the secret key"""
    st, vio, und = Stats(), [], []
    rnd = random.Random(d)
    what = f"{scheme} commitment, {d} variables: "
    a0 = [scheme, str(d), "bind"]
    for t, cond in accepting(pr, a0, st):
        if not vio: _binding(pr, a0, scheme, d, t, cond, st, vio, und, rnd, what, timeout)
    return st, vio, und


def accepting(pr, a0, st):
    """the accepting runs with every comparison true, and with exactly one of them false"""
    t = pr.trace(a0, decisions="1" * 4000)
    st.runs += 1
    ev = [e for e in t.events() if t.nodes[e[2]] != t.nodes[e[3]]]
    out = [(t, [t.z(e[2]) == t.z(e[3]) for e in ev])] if t.verdict == "accept" else []
    for e in ev:
        t = pr.trace(a0, decisions="1" * e[1] + "0" + "1" * 4000)
        st.runs += 1
        if t.verdict != "accept": continue
        out.append((t, [t.z(f[2]) == t.z(f[3]) if f[4] else t.z(f[2]) != t.z(f[3]) for f in t.events() if t.nodes[f[2]] != t.nodes[f[3]]]))
    return out


def _binding(pr, a0, scheme, d, t, eqs, st, vio, und, rnd, what, timeout):
    o = t.outs()
    sec = [o[f"secret{i}"] for i in range(d + 1)]
    al = o["alpha0"]
    names = [nd[1] for nd in t.nodes if nd[0] == "S"]
    # 1. companions
    bad = []
    for i in range(d + 1):
        r, m = check(eqs + [t.z(o[f"wa{i}"]) != t.z(al) * t.z(o[f"w{i}"])], st, timeout)
        if r == "unknown": und.append(what + f"companion {i}: solver unknown")
        if r == "sat": bad.append(i)
    if bad:
        env = {**{n: rnd.randrange(1, P) for n in names}, **{f"x{k}": rnd.randrange(P) for k in range(40)}, **{f"m{k}": rnd.randrange(1, P) for k in range(60)}}
        for k in bad:
            h = [scheme, str(d), "honest", str(k)]
            vd, _, so = pr.native(h, env, {})
            if vd == "accept":
                vio.append((what + f"an opening whose witness {k} has a wrong companion is accepted", {"args": h, "witness": k}))
                return
        und.append(what + f"companions {bad} not implied by acceptance, not reproduced natively")
    # 2. evaluation binding
    e1 = [{n: rnd.randrange(1, P) for n in names} for _ in range(2)]
    got = [[dict(pr.native(a0, e, {})[1]).get(f"secret{i}") for i in range(d + 1)] for e in e1]
    if len(set(got[0])) != d + 1 or any(x == y for x, y in zip(*got)):
        vio.append((what + "components of the secret key coincide or are constant", {"args": a0, "secrets": got}))
        return
    if len({t.nodes[s] for s in sec}) != d + 1 or any(t.nodes[s][0] != "S" for s in sec):
        und.append(what + "secret key is not made of distinct random values")
        return
    com_val = t.z(o["digest0"]) + (t.z(symn(t, "z")) * t.z(o["digest1"]) if scheme == "input" else 0)
    sub = [(t.z(s), t.z(symn(t, f"t{i}")) if i < d else z3.RealVal(0)) for i, s in enumerate(sec)]
    wrong = z3.substitute(com_val, *sub) != t.z(o["answer0"])
    comp = [(z3.Real(f"wa{i}"), t.z(al) * t.z(o[f"w{i}"])) for i in range(d + 1)]
    base = [z3.substitute(e, *comp) for e in eqs]
    cons = [z3.substitute(e, *sub) for e in base]
    r, m = check(cons + [wrong], st, timeout)
    if r == "unsat": return
    if r == "unknown":
        und.append(what + "evaluation binding: solver unknown")
        return
    # every key the equation holds at restricts the opening further: find one that survives many keys
    for k in range(24):
        pt = [(t.z(s), z3.RealVal(rnd.randrange(2, 1 << 10))) for s in sec]
        cons += [z3.substitute(e, *pt) for e in base]
        if k < 23 and k % 6: continue
        r, m = check(cons + [wrong] + [z3.Real(f"t{i}") == 3 + i for i in range(d)], st, timeout)
        if r != "sat": break
    if r == "sat":
        mod = model_mod_p(m, names)
        if mod and replay_open(pr, a0, t, mod, names, d, rnd, vio, what): return
    und.append(what + f"evaluation binding: not shown ({r})")
    return


def replay_open(pr, a0, t, mod, names, d, rnd, vio, what):
    o = t.outs()
    for k in range(4):
        env = {n: (rnd.randrange(1, P) if n[0] == "m" else mod.get(n, 0)) for n in names}
        v = t.evalp(env)
        for i in range(d + 1): env[f"wa{i}"] = v[o["alpha0"]] * v[o[f"w{i}"]] % P
        vd, _, so = pr.native(a0, env, {})
        if vd != "accept": return False
    vio.append((what + "an opening to a wrong value is accepted under every key tried", {"values": env, "args": a0}))
    return True


def symn(t, n): return t.symnode(n)


def vpd_companion(pr, scheme, d, timeout=60000):
    """check_commit accepts only a digest with its right companion"""
    st, vio, und = Stats(), [], []
    a0 = [scheme, str(d), "cc"]
    for t, eqs in accepting(pr, a0, st):
        al = t.outs()["alpha0"]
        names = [nd[1] for nd in t.nodes if nd[0] == "S"]
        for k in (0, 2) if scheme == "input" else (0,):
            bad = t.z(symn(t, f"y{k+1}")) != t.z(al) * t.z(symn(t, f"y{k}"))
            r, m = check(eqs + [bad], st, timeout)
            if r == "unsat": continue
            what = f"{scheme} commitment: a digest with a wrong companion passes check_commit"
            if r == "sat":
                env = {**{n: 5 for n in names}, **(model_mod_p(m, names) or {n: 1 for n in names})}
                vd, _, so = pr.native(a0, env, {})
                if vd == "accept":
                    vio.append((what, {"values": env, "args": a0}))
                    return st, vio, und
            und.append(what + f" ({r}), not reproduced natively")
    return st, vio, und


# ------------------------------------------------------------------------------------------ bit-level group routines
def bits_program():
    pr = Program("vpdbits", "zk_bits.cpp", extra_inc=[S + "/zkbn", REPO], sym_inc=[S + "/zksym"], extra_src=[S + "/zk_sym.cpp"], nat_src=[S + "/zk_nat.cpp"], flags=["-maes", "-msse4.1"])
    pr.env = {"ZK_FIXED_KEYS": "1"}
    return pr


def msc_program():
    pr = Program("vpd", "zk_msc.cpp", weak={"inputvpd.cpp"}, extra_inc=[S + "/zkbn"], sym_inc=[S + "/zksym"], extra_src=[S + "/zk_sym.cpp"], nat_src=[S + "/zk_nat.cpp"],
                 defs=["ZK_CONTRACTS", "ZK_REAL_MSC"], flags=["-maes", "-msse4.1"])
    pr.env = {"ZK_FIXED_KEYS": "1"}
    return pr


def bits(pr, args, timeout=60000):
    st, vio, und = Stats(), [], []
    what = f"group routine {args[0]} is not the scalar multiple (arguments {' '.join(args[1:])})"
    for path, u in explore(lambda dec: pr.trace(args, decisions=dec), st, timeout=timeout, max_paths=600):
        if path is None:
            und += u
            continue
        t, o = path.t, path.t.outs()
        bs = [nd[1] for nd in t.nodes if nd[0] == "S"]
        if t.taints():
            und.append(what + f": values outside the encoding: {t.taints()[:2]}")
            continue
        if t.verdict != "done":
            und.append(what + f": {t.verdict}")
            continue
        zi = []
        for nd in t.nodes:
            zi.append(z3.Int(nd[1]) if nd[0] == "S" else z3.IntVal(nd[1]) if nd[0] == "C" else
                      zi[nd[1]] + zi[nd[2]] if nd[0] == "+" else zi[nd[1]] - zi[nd[2]] if nd[0] == "-" else zi[nd[1]] * zi[nd[2]])
        dom = [z3.Or(z3.Int(b) == 0, z3.Int(b) == 1) for b in bs]
        pcz = [zi[x] == zi[y] if q else zi[x] != zi[y] for x, y, q in path.pc]
        r, m = check(dom + pcz + [z3.simplify(zi[o["got"]] - zi[o["want"]]) % P != 0], st, timeout, logic=None)
        if r == "unsat": continue
        if r == "sat":
            env = {b: m.eval(z3.Int(b), True).as_long() for b in bs}
            vd, obs, so = pr.native(args, env, {})
            ob = dict(obs)
            if vd != "done" or ob["got"] != ob["want"]:
                vio.append((what, {"args": args, "values": env, "native": vd}))
                return st, vio, und
        und.append(what + f": {r}, not reproduced natively")
    return st, vio, und


# ------------------------------------------------------------------------------------------ tasks
def altered_family(th=False):
    fam = [zmixed([1, 1, 1], 12, "one-everywhere", types=ZKLIVE), zpar([2, 2, 2], 2, 4), zmixed([4, 4, 4], 1), zmixed([4, 2], 14, "zk-4x2-s14")]
    if th: fam += [zmixed([4, 4, 4], 2), zmixed([2, 4, 2, 4], 3), zmixed([8, 4], 4), zpar([4, 4], 2, 5), zmixed([2, 2, 2, 2], 5)]
    return fam


def fs_family(th=False):
    fam = [zmixed([1, 1, 1], 12, "one-everywhere", types=ZKLIVE), zpar([2, 2, 2], 2, 4), zmixed([4, 4, 4], 1), zmixed([4, 2], 14, "zk-4x2-s14"), zmixed([2, 4, 8], 3)]
    if th: fam += [zmixed([8, 8, 4, 2], 2), zmixed([2, 4, 2, 4, 4, 2], 3), zmixed([16, 4], 4), zpar([4, 4], 4, 5)]
    return fam


def tasks(prop, th):
    import gkr
    both = lambda pr: par([lambda: pr.build("sym"), lambda: pr.build("nat")])
    shape = "layers of 1..16 gates" if th else "layers of 1..8 gates"
    if prop == "Z01":
        pr = program()
        both(pr)
        fam = family(th)
        wide = zwide(th)
        return [(f"{c.name}-fixed{v}", lambda c=c, v=v: completeness(pr, c, fixed=v)) for c in wide for v in range(4 if th else 2)] + \
            [(c.name, lambda c=c: completeness(pr, c)) for c in sorted(fam, key=lambda c: -sum(map(len, c.layers)))], [
            f"{len(wide)} wider circuits (layers of up to {max(max(map(len, c.layers)) for c in wide)} gates), all inputs symbolic, at {4 if th else 2} fixed vectors of challenges, masks, blindings and keys: " + ", ".join(c.name for c in wide),
            f"{len(fam)} circuits over gate types {ZK}, {shape}, depth 2..7, non-parallel and with 2, 4, 8 parallel blocks; all inputs, masks, blindings, keys and challenges symbolic; every path",
            "circuits: " + ", ".join(c.name for c in fam)]
    if prop == "Z04":
        pr = program()
        both(pr)
        fam = family(th) + [zmixed([4, 4, 4], s, "eval-4x4x4-s%d" % s) for s in range(50, 58)]
        fam += [ZCircuit("wide-weighted-sums", [inputs(64), [(12, 3, 51), (5, 1, 60), (12, 20, 63), (13, 40, 40)]])]
        return [(c.name, lambda c=c: gkr.evaluation("zk", pr, c)) for c in fam], [f"{len(fam)} circuits over gate types {ZK}, {shape}; all inputs symbolic",
                                                                                    "circuits: " + ", ".join(c.name for c in fam)]
    if prop == "Z02":
        pr = tamper_program()
        both(pr)
        out, n = [], 0
        fam = altered_family(th)
        for c in fam:
            ss = sites(pr, c)
            n += len(ss)
            for k in range(0, len(ss), 6):
                def go(c=c, part=ss[k:k + 6]):
                    st, vio, und = Stats(), [], []
                    for s in part:
                        a, b, u = altered(pr, c, *s[:3], last=s[3])
                        st.add(a); vio += b; und += u
                        if vio: break
                    return st, vio, und
                out.append((f"{c.name}:{'-'.join(map(str, ss[k][:3]))}", go))
        return out, [f"{n} alterations (every prover message, component by component, of {len(fam)} circuits); inputs, masks, blindings and the alteration symbolic, at 8 fixed vectors of challenges and keys",
                     "circuits: " + ", ".join(c.name for c in fam)]
    if prop == "Z06":
        pr = fs_program()
        both(pr)
        fam = fs_family(th)
        return [(c.name, lambda c=c: fiat_shamir(pr, c)) for c in fam], [
            f"{len(fam)} circuits; every prover message a symbol; every challenge handed to the prover against every message sent before", "circuits: " + ", ".join(c.name for c in fam)]
    if prop == "Z03":
        pr = vpd_program()
        both(pr)
        cfg = [("R", 2)] + [("mask", d) for d in ((3, 5, 7, 9) if not th else (3, 5, 7, 9, 11, 13, 15, 17))] + [("input", d) for d in ((1, 2, 3, 4, 5) if not th else range(1, 8))]
        t = [(f"{f.__name__}-{s}{d}", lambda f=f, s=s, d=d: f(pr, s, d)) for s, d in cfg for f in (vpd_honest, vpd_binding, vpd_companion)]
        return t, [f"schemes and numbers of variables {cfg}; all coefficients, points, blindings, keys, and openings that are any combination of the published elements"]
    if prop == "Z05":
        pb, pm = bits_program(), msc_program()
        par([lambda: both(pb), lambda: both(pm)])
        rnd = random.Random(5)
        bases = ["0", str((1 << 254) - 1 - (1 << 200)), str(rnd.randrange(1 << 253))] + ([str(rnd.randrange(1 << 253)) for _ in range(5)] if th else [])
        a = []
        for b in bases:
            for ns in ("vpdR", "vpd_test", "input_vpd"):
                a += [(pb, [ns, b, w]) for w in ("0,1,2,3", "62,63,64,65,66", "126,127,128,190,191,192,193", "250,251,252,253")]
            a += [(pb, ["g1_exp", b, w]) for w in ("0,14", "15,29", "30,44", "60,74,75", "119,120", "180,194", "210,224", "225,239", "240,253")]
        for d, i, l in ((1, 0, 2), (2, 0, 4), (3, 0, 8), (4, 1, 16)) + (((5, 3, 32), (4, 0, 16), (3, 0, 4), (4, 1, 8)) if th else ()):
            a += [(pm, ["msc", b, w, str(d), str(i), str(l)]) for b, w in ((bases[0], "0"), (bases[2], "77"), (bases[1], "3,100,249"))][:1 if d == 4 and not th else 3]
        a.sort(key=lambda x: x[1][0] != "msc")
        return [(" ".join(x[:1] + [x[1][:12]] + x[2:]), lambda p=p, x=x: bits(p, x)) for p, x in a], [
            f"{len(a)} configurations: every value of up to 7 symbolic bits of a scalar at the stated positions, the other bits those of {len(bases)} fixed scalars; multi-scalar sums: one symbolic bit in each of up to 8 scalars (all 256 table entries)",
            "window tables for 1..4 (thorough 5) variables"]
    raise KeyError(prop)
