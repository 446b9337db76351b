"""Translation validation of the circuit generators and parsers: the real tool is built from the working tree and run, and the
solver decides that the circuit it wrote computes what the source (matrix product, straight-line program, ...) says, for all inputs."""
import random, re, threading
from core import *

RANDC = r'''
extern "C" { static int n_draw = 0; int rand(void) { return RAND_EXPR(n_draw++); } }
'''


class Tool:
    """a repository program with its own main, linked with a rand() that tags each draw"""

    def __init__(self, src, rand_expr="1900000000 + k"):
        self.src = src
        d = tempfile.mkdtemp(dir=scratch())
        stub = os.path.join(d, "rand.cpp")
        with open(stub, "w") as f:
            f.write("#include <cstdlib>\nextern \"C\" int rand(void) throw() { static int n = 0; int k = n++; const char *e = getenv(\"DRAW_DIGIT\"); "
                    "if (e) { int r = atoi(e); while (r--) k /= 10; return k % 10; } return " + rand_expr + "; }\n")
        self.exe = os.path.join(d, "tool")
        r = run([CXX, "-std=c++11", "-O1", "-w", os.path.join(REPO, src), stub, "-o", self.exe])
        if r.returncode: raise BuildError(r.stderr[-2000:])

    def __call__(self, args, files=None, outs=(), digit=None, timeout=60):
        d = tempfile.mkdtemp(dir=scratch())
        for n, t in (files or {}).items():
            with open(os.path.join(d, n), "w") as f: f.write(t)
        env = dict(os.environ)
        env.pop("DRAW_DIGIT", None)
        if digit is not None: env["DRAW_DIGIT"] = str(digit)
        try:
            r = run([self.exe, *args], cwd=d, env=env, timeout=timeout)
            rc, so, se = r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired:
            rc, so, se = -99, "", "timeout"
        res = {}
        for o in outs:
            p = os.path.join(d, o)
            res[o] = open(p, errors="replace").read() if os.path.exists(p) else None
        shutil.rmtree(d, ignore_errors=True)
        return rc, so, se, res


class Malformed(Exception):
    pass


def parse_circuit(text):
    """the reader's format -> layers of (ty, u, v); raises Malformed unless gates are 0..n-1 in order, sizes powers of two, wires in range"""
    try: t = [int(x) for x in text.split()]
    except ValueError: raise Malformed("non-integer token")
    pos = 0

    def nx():
        nonlocal pos
        if pos >= len(t): raise Malformed("circuit file ends early")
        pos += 1
        return t[pos - 1]
    d = nx()
    layers = []
    for i in range(d):
        n = nx()
        if n < 1 or n & (n - 1): raise Malformed(f"layer {i} has {n} gates, not a power of two")
        lay = []
        for g in range(n):
            ty, gg, u, v = nx(), nx(), nx(), nx()
            if gg != g: raise Malformed(f"layer {i}: gate {g} is numbered {gg}")
            if i == 0:
                if ty not in (2, 3): raise Malformed(f"input layer: gate type {ty}")
            else:
                m = len(layers[-1])
                if ty not in (0, 1, 2, 5, 6, 7, 8, 9, 10): raise Malformed(f"layer {i}: gate {g}: type {ty}")
                if ty == 5:
                    if not (0 <= u <= v <= m): raise Malformed(f"layer {i}: gate {g}: range [{u},{v}) of {m}")
                elif ty != 2 and not (0 <= u < m and (ty in (6, 10) or 0 <= v < m)): raise Malformed(f"layer {i}: gate {g}: wires {u},{v} of {m}")
                if ty in (6, 10) and v != 0: raise Malformed(f"layer {i}: gate {g}: second wire of a one-input gate is {v}")
            lay.append((ty, u, v))
        layers.append(lay)
    if pos != len(t): raise Malformed(f"{len(t) - pos} trailing numbers")
    return layers


class Dag:
    """hash-consed polynomial terms with a numeric shadow, and solver terms"""

    def __init__(self, seed=5):
        self.nodes, self.sh, self.cons, self.zz = [], [], {}, {}
        self.rnd = random.Random(seed)

    def add(self, k, s):
        if k not in self.cons:
            self.cons[k] = len(self.nodes); self.nodes.append(k); self.sh.append(s % P)
        return self.cons[k]

    def c(self, x): return self.add(("C", x % P), x)
    def s(self, n): return self.add(("S", n), self.rnd.randrange(P)) if ("S", n) not in self.cons else self.cons[("S", n)]

    def op(self, o, a, b):
        x, y = self.nodes[a], self.nodes[b]
        if x[0] == "C" and y[0] == "C": return self.c(x[1] + y[1] if o == "+" else x[1] - y[1] if o == "-" else x[1] * y[1])
        if o == "+" and x == ("C", 0): return b
        if o in "+-" and y == ("C", 0): return a
        if o == "*" and (x == ("C", 0) or y == ("C", 0)): return self.c(0)
        if o == "*" and x == ("C", 1): return b
        if o == "*" and y == ("C", 1): return a
        if o == "-" and a == b: return self.c(0)
        if o in "+*" and a > b: a, b = b, a
        s, r = self.sh[a], self.sh[b]
        return self.add((o, a, b), s + r if o == "+" else s - r if o == "-" else s * r)

    def gate(self, ty, u, v, prev):
        if ty == 0: return self.op("+", prev[u], prev[v])
        if ty == 1: return self.op("*", prev[u], prev[v])
        if ty == 2: return self.c(0)
        if ty == 10: return prev[u]
        if ty == 5:
            s = self.c(0)
            for k in range(u, v): s = self.op("+", s, prev[k])
            return s
        if ty == 6: return self.op("-", self.c(1), prev[u])
        if ty == 7: return self.op("-", prev[u], prev[v])
        if ty == 8: return self.op("-", self.op("+", prev[u], prev[v]), self.op("*", self.c(2), self.op("*", prev[u], prev[v])))
        if ty == 9: return self.op("-", prev[v], self.op("*", prev[u], prev[v]))
        raise Malformed(f"gate type {ty}")

    def z(self, i):
        st = [i]
        while st:
            n = st[-1]
            if n in self.zz: st.pop(); continue
            k = self.nodes[n]
            if k[0] == "S": self.zz[n] = z3.Real(k[1]); st.pop()
            elif k[0] == "C": self.zz[n] = zconst(k[1]); st.pop()
            else:
                m = [x for x in k[1:] if x not in self.zz]
                if m: st += m; continue
                a, b = self.zz[k[1]], self.zz[k[2]]
                self.zz[n] = a + b if k[0] == "+" else a - b if k[0] == "-" else a * b
                st.pop()
        return self.zz[i]

    def value(self, i, env):
        """numeric value under env (symbol -> int)"""
        memo = {}
        st = [i]
        while st:
            n = st[-1]
            if n in memo: st.pop(); continue
            k = self.nodes[n]
            if k[0] == "S": memo[n] = env.get(k[1], 0) % P; st.pop()
            elif k[0] == "C": memo[n] = k[1]; st.pop()
            else:
                m = [x for x in k[1:] if x not in memo]
                if m: st += m; continue
                a, b = memo[k[1]], memo[k[2]]
                memo[n] = (a + b if k[0] == "+" else a - b if k[0] == "-" else a * b) % P
                st.pop()
        return memo[i]


def evaluate(D, layers, inp):
    lays = [[inp(g, u) if ty == 3 else D.c(0) for g, (ty, u, v) in enumerate(layers[0])]]
    for l in layers[1:]: lays.append([D.gate(ty, u, v, lays[-1]) for ty, u, v in l])
    return lays


def same(D, got, want, st, what):
    """-> (violations, undecided): got[i] == want[i] as polynomials, for all inputs"""
    if len(got) != len(want):
        return [(f"{what}: {len(got)} outputs, {len(want)} expected", {})], []
    r, m = check([z3.Or([D.z(a) != D.z(b) for a, b in zip(got, want)] or [z3.BoolVal(False)])], st, 60000)
    if r == "unsat": return [], []
    if r == "unknown" and all(D.sh[a] == D.sh[b] for a, b in zip(got, want)):
        return [], [f"{what}: solver unknown"]
    names = sorted({k[1] for k in D.nodes if k[0] == "S"})
    rnd = random.Random(3)
    for k in range(40):
        env = model_mod_p(m, names) if (m is not None and k == 0) else {n: rnd.randrange(10) if k < 20 else rnd.randrange(P) for n in names}
        if env is None: continue
        for j, (a, b) in enumerate(zip(got, want)):
            x, y = D.value(a, env), D.value(b, env)
            if x != y: return [(f"{what}: output {j} is {x}, the source gives {y}", {"inputs": env, "output": j, "got": x, "want": y})], []
    return [], [f"{what}: counterexample not confirmed"]


MAGIC = 1900000000


# ------------------------------------------------------------------------------------------- generators
def gen_matrix(tool, mode, n, meta=False):
    st = Stats()
    what = f"gen {mode} {n}"
    digs = len(str(2 * n * n - 1)) or 1
    texts, metas = [], None
    for r in range(digs):
        rc, so, se, res = tool([str(mode), str(n)], outs=["meta_data.txt"], digit=r)
        if rc != 0: return st, [(f"{what}: exits with {rc} {se[:100]}", {"args": [mode, n]})], []
        texts.append(so); metas = res["meta_data.txt"]
    try:
        Ls = [parse_circuit(t) for t in texts]
    except Malformed as e:
        return st, [(f"{what}: {e}", {"args": [mode, n], "circuit": texts[0][:3000]})], []
    L = Ls[0]
    for M in Ls[1:]:
        if M[1:] != L[1:] or [x[0] for x in M[0]] != [x[0] for x in L[0]]: return st, [], [f"{what}: the circuit's shape depends on the data"]
    ident = [sum(10 ** r * Ls[r][0][g][1] for r in range(digs)) for g in range(len(L[0]))]
    D = Dag()
    lays = evaluate(D, L, lambda g, u: D.s(f"draw{ident[g]}"))
    want = []
    N = n * n
    try:
        for i in range(n):
            for j in range(n):
                s = D.c(0)
                for k in range(n):
                    if mode == 2:
                        a, b = lays[0][2 * (i * N + 0 * n + k)], lays[0][2 * (0 * N + j * n + k) + 1]
                    else:
                        a, b = lays[0][i * n + k], lays[0][N + k * n + j]
                    s = D.op("+", s, D.op("*", a, b))
                want.append(s)
        ids = sorted(set(ident))
    except IndexError:
        return st, [(f"{what}: input layer of {len(L[0])} gates", {"args": [mode, n]})], []
    if len(ids) != 2 * N:
        return st, [(f"{what}: the input layer shows {len(ids)} of the {2*N} matrix entries", {"args": [mode, n], "draws": ids})], []
    v, u = same(D, lays[-1], want, st, what)
    for x in v: x[1].update({"args": [mode, n], "circuit": texts[0][:4000]})
    if not v and mode == 2: v += check_meta(what, texts[-1], metas, st)
    st.paths += 1
    return st, v, u


def check_meta(what, text, meta, st):
    """meta_data.txt: per layer 'block size, number of blocks, log of each, length of the layer's line'"""
    if meta is None: return [(f"{what}: no meta data written", {})]
    lines = text.split("\n")[1:]
    rows = [[int(x) for x in l.split()] for l in meta.split("\n") if l.strip()]
    lays = [l for l in lines if l.strip()]
    if len(rows) != len(lays): return [(f"{what}: {len(rows)} meta data rows for {len(lays)} layers", {"meta": meta})]
    for i, (r, l) in enumerate(zip(rows, lays)):
        n = int(l.split()[0])
        if len(r) != 5 or r[0] * r[1] != n or r[0] != 1 << r[2] or r[1] != 1 << r[3] or r[4] != len(l) + 1:
            return [(f"{what}: meta data row {i} {r} does not describe a layer of {n} gates in {len(l)+1} characters", {"meta": meta})]
    return []


def gen_simple(tool, mode, d, w):
    st = Stats()
    what = f"gen {mode} {d} {w}"
    rc, so, se, res = tool([str(mode), str(d), str(w)], outs=["meta_data.txt"])
    if rc != 0: return st, [(f"{what}: exits with {rc} {se[:100]}", {"args": [mode, d, w]})], []
    try:
        L = parse_circuit(so)
    except Malformed as e:
        return st, [(f"{what}: {e}", {"args": [mode, d, w], "circuit": so[:3000]})], []
    D = Dag()
    lays = evaluate(D, L, lambda g, u: D.s(f"x{g}") if u >= MAGIC else D.c(u))
    n = 1 << w
    v = []
    if len(L) != d or len(L[0]) != n: return st, [(f"{what}: {len(L)} layers of {len(L[0])} inputs", {"circuit": so[:2000]})], []
    us = [u for _, u, _ in L[0]]
    if mode != 5 and len(set(us)) != n: v.append((f"{what}: input draws repeat", {"circuit": so[:2000]}))
    x = lays[0]
    if mode == 0:
        for _ in range(d - 2): x = [D.gate(8, j, 0, x) for j in range(n)]
        want = [x[2 * j] for j in range(n // 2)]
    elif mode == 1:
        for _ in range(d - 2): x = [D.op("+", y, y) for y in x]
        want = [D.op("*", x[2 * j], x[2 * j + 1]) for j in range(n // 2)]
    else:
        want = [D.c(0), D.c(0)]
    v2, u = same(D, lays[-1], want, st, what)
    for y in v2: y[1].update({"args": [mode, d, w], "circuit": so[:4000]})
    v += v2
    if not v and mode == 1: v += check_meta(what, so, res["meta_data.txt"], st)
    st.paths += 1
    return st, v, u


# ---------------------------------------------------------------------------------------------- parsers
OPS = {"+": 0, "*": 1, "XOR": 8, "minus": 7, "NAAB": 9, "NOT": 6, "SS": 5}


class Pws:
    """straight-line program: n inputs V0..; gates (op, a, b) over earlier variables"""

    def __init__(self, name, n, gates, base=0):
        self.name, self.n, self.gates, self.base = name, n, gates, base

    def text(self):
        b = self.base
        out = [f"P V{b+k} = I{k} E" for k in range(self.n)]
        for k, (o, x, y) in enumerate(self.gates): out.append(f"P V{b+self.n+k} = V{b+x} {o} V{b+y} E")
        used = {x for o, a, c in self.gates for x in (range(a, c + 1) if o == "SS" else (a, c))}
        m = 0
        for k in range(len(self.gates)):
            if self.n + k not in used: out.append(f"P O{b+self.n+len(self.gates)+m} = V{b+self.n+k} E"); m += 1
        return "\n".join(out) + "\n"

    def levels(self):
        l = [0] * self.n
        for o, a, c in self.gates:
            ops = range(a, c + 1) if o == "SS" else (a,) if o == "NOT" else (a, c)
            l.append(1 + max(l[x] for x in ops))
        return l

    def eval(self, D, xs):
        v = list(xs)
        for o, a, c in self.gates: v.append(D.gate(OPS[o], a, c + 1 if o == "SS" else c, v))
        return v


def rand_pws(name, ops, n, m, seed, base=0, deep=False):
    rnd = random.Random(seed)
    gates = []
    lv = [0] * n
    for k in range(m):
        o = ops[(k + rnd.randrange(len(ops))) % len(ops)] if k >= len(ops) else ops[k]
        tot = n + k
        a = rnd.randrange(tot)
        b = rnd.randrange(tot)
        if deep and k: a = tot - 1
        if o == "NOT": b = a
        if o == "SS":
            # the operands of a sum lie on one level
            runs, i = [], 0
            while i < tot:
                j = i
                while j + 1 < tot and lv[j + 1] == lv[i]: j += 1
                runs.append((i, j)); i = j + 1
            a, b = rnd.choice([r for r in runs if r[1] > r[0]] or runs)
        gates.append((o, a, b))
        l = 1 + (max(lv[a:b + 1]) if o == "SS" else lv[a] if o == "NOT" else max(lv[a], lv[b]))
        lv.append(l)
    used = set()
    for o, a, b in gates: used |= set(range(a, b + 1)) if o == "SS" else {a, b}
    # every input is used
    return Pws(name, n, gates + [], base) if set(range(n)) <= used else None


def pws_family(ops, thorough=False, sums=True):
    fam = []
    seed = 0
    shapes = [(2, 3), (2, 6), (3, 5), (4, 7), (4, 10), (5, 9)] + ([(6, 14), (8, 16), (3, 12), (7, 11), (8, 24)] if thorough else [])
    per = 3 if not thorough else 8
    for n, m in shapes:
        got = 0
        while got < per:
            seed += 1
            o = [x for x in ops if x != "SS"]
            random.Random(seed).shuffle(o)
            if "SS" in ops and seed % 2: o = ["SS"] + o
            p = rand_pws(f"prog-{n}x{m}-s{seed}", o, n, m, seed, base=(0 if seed % 3 else 0), deep=seed % 2 == 0)
            if p:
                fam.append(p); got += 1
    # long relay chains, squares, shared operands
    o0, o1 = ("+" if "+" in ops else ops[0]), ("*" if "*" in ops else ops[0])
    fam.append(Pws("chain", 2, [(o0, 0, 1), (o1, 2, 2), (o1, 3, 2), (o0, 4, 4), (o1, 5, 0), (o0, 6, 1)]))
    fam.append(Pws("square-far", 3, [(o0, 0, 1), (o0, 3, 2), (o0, 4, 3), (o1, 0, 5), (o1, 6, 6), (o0, 2, 7)]))
    for x in ops:
        if x in ("NOT",): fam.append(Pws("single-NOT", 2, [(o0, 0, 1), ("NOT", 2, 2)]))
        elif x != "SS":
            fam.append(Pws(f"single-{x}", 2, [(x, 0, 1)]))
            fam.append(Pws(f"order-{x}", 3, [(o0, 0, 1), (x, 3, 2), (x, 2, 4)]))
            fam.append(Pws(f"far-{x}", 2, [(o0, 0, 0), (o0, 2, 2), (x, 1, 3), (x, 4, 1)]))
    if "SS" in ops:
        for n in (2, 3, 4, 5): fam.append(Pws(f"sum-{n}", n, [("SS", 0, n - 1)]))
        fam.append(Pws("sum-mid", 4, [(o1, 0, 1), (o1, 1, 2), (o1, 2, 3), ("SS", 4, 6), (o0, 7, 3)]))
        fam.append(Pws("sum-two", 4, [(o1, 0, 1), (o1, 1, 2), (o1, 2, 3), (o1, 3, 3), ("SS", 4, 5), ("SS", 6, 7), (o0, 8, 9)]))
    return fam


def rdl_program(nin, rep, order, nsrc, consts, seed):
    """wiring program: nsrc free inputs, constants, then one PASS per (copy, input).  order: 'block' output number = copy*nin + k;
    'input' = k*rep + copy.  -> (text, source of each (copy, k): ('x', j) or ('c', value))"""
    rnd = random.Random(seed)
    out = [f"P V{j} = I{j} E" for j in range(nsrc)]
    cs = []
    for i, c in enumerate(consts):
        out.append(f"P V{nsrc+i} = {c} E")
    tot = nsrc + len(consts)
    src = {}
    cells = [(b, k) for b in range(rep) for k in range(nin)] if order == "block" else [(b, k) for k in range(nin) for b in range(rep)]
    v = tot
    outs = []
    for n, (b, k) in enumerate(cells):
        j = n if n < tot else rnd.randrange(tot)
        if n < tot: j = (n * 7 + 3) % tot if tot % 7 else n
        src[(b, k)] = ("x", j) if j < nsrc else ("c", consts[j - nsrc])
        out.append(f"P V{v} = V{j} PASS V{j} E")
        outs.append(v)
        v += 1
    for n, w in enumerate(outs): out.append(f"P O{v+n} = V{w} E")
    return "\n".join(out) + "\n", src


def parser_check(tool, kind, prog, rep, seed=1):
    """kind: 'sdp' parser_sha_data_parallel | 'lan' parser_lanczos | 'sha' parser_sha"""
    st = Stats()
    consts = [0, 1] + ([5] if seed % 2 else [])
    nsrc = max(2, prog.n)
    rdl, src = rdl_program(prog.n, rep, "block" if kind == "sdp" else "input", nsrc, consts, seed)
    what = f"{tool.src} on {prog.name} x{rep}"
    outn = {"sdp": "test_circuit.txt", "lan": "lanczos_circuit.txt", "sha": "sha_circuit.txt"}[kind]
    args = ["c.pws", "r.pws"] + ([] if kind == "sdp" else [str(rep)])
    files = {"c.pws": prog.text(), "r.pws": rdl}
    rc, so, se, res = tool(args, files, [outn, "meta_data_linear.txt"])
    doc = {"files": files, "args": args}
    if rc != 0 or res[outn] is None: return st, [(f"{what}: exits with {rc} {se[-200:]}", doc)], []
    doc["circuit"] = res[outn][:6000]
    try:
        L = parse_circuit(res[outn])
    except Malformed as e:
        return st, [(f"{what}: {e}", doc)], []
    D = Dag()
    lays = evaluate(D, L, lambda g, u: D.s(f"x{u-MAGIC}") if u >= MAGIC else D.c(u))
    vals = []
    for b in range(rep):
        xs = [D.s(f"x{j}") if t == "x" else D.c(j) for t, j in (src[(b, k)] for k in range(prog.n))]
        vals.append(prog.eval(D, xs))
    lv = prog.levels()
    top = max(lv)
    deep = [i for i, l in enumerate(lv) if l == top]
    cells = [(b, i) for b in range(rep) for i in deep] if kind == "sdp" else [(b, i) for i in deep for b in range(rep)]
    want = [vals[b][i] for b, i in cells]
    got = lays[-1]
    zero = D.c(0)
    # padding and zero gates carry the constant zero
    g2 = [x for x in got if D.sh[x] != 0]
    w2 = [x for x in want if D.sh[x] != 0]
    zs = [x for x in got if D.sh[x] == 0] + [x for x in want if D.sh[x] == 0]
    v, u = same(D, g2, w2, st, what)
    if not v and zs:
        v1, u1 = same(D, zs, [zero] * len(zs), st, what + " (padding)")
        v += v1; u += u1
    # depth: one layer per level
    extra = {"sdp": 3, "lan": 2, "sha": 2}[kind]
    if not v and len(L) != top + extra:
        v.append((f"{what}: {len(L)} layers for a program of depth {top}", {}))
    if not v and kind == "sdp":
        v += sdp_meta(what, L, res["meta_data_linear.txt"], rep)
    for x in v: x[1].update(doc)
    st.paths += 1
    return st, v, u


def sdp_meta(what, L, meta, rep):
    rows = [[int(x) for x in l.split()] for l in (meta or "").split("\n") if l.strip()]
    if len(rows) != len(L): return [(f"{what}: {len(rows)} meta data rows for {len(L)} layers", {"meta": meta})]
    for i, r in enumerate(rows):
        if i == 0:
            if r != [0, 0, 0, 0, 0]: return [(f"{what}: meta data row 0 is {r}", {"meta": meta})]
            continue
        n = len(L[i])
        if len(r) != 5 or r[0] != (0 if i == 1 else 1) or r[2] != rep or r[1] * r[2] != n or r[1] != 1 << r[3] or r[2] != 1 << r[4]:
            return [(f"{what}: meta data row {i} {r} does not describe a layer of {n} gates in {rep} blocks", {"meta": meta})]
    if True:
        # a parallel layer's blocks are wired alike: block r's gates read block r of the layer below
        for i in range(2, len(L)):
            bs, pb = len(L[i]) // rep, len(L[i - 1]) // rep
            for b in range(rep):
                for g in range(bs):
                    t0, u0, v0 = L[i][g]
                    t1, u1, v1 = L[i][b * bs + g]
                    if t0 != t1 or (t0 != 2 and u1 != u0 + b * pb) or (t0 not in (2, 6, 10) and v1 != v0 + b * pb):
                        return [(f"{what}: layer {i}: block {b} is not a copy of block 0 at gate {g}", {})]
    return []
