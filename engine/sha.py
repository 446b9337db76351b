"""The SHA-256 / Merkle-tree circuit generator (bin/sha256gen_merkle.py): the script is run as it stands, its program is executed symbolically
gate by gate, and the solver compares every output with the SHA-256 constraint system written here from FIPS 180-4."""
from core import *
from transval import Dag, same
import hashlib

JY = "/usr/bin/jython"
NCONST = 34


def script(args, timeout=240):
    d = tempfile.mkdtemp(dir=scratch())
    shutil.copy(os.path.join(REPO, "bin/sha256gen_merkle.py"), d)
    r = run([JY, "-Dpython.cachedir.skip=true", "sha256gen_merkle.py", *args], cwd=d, timeout=timeout)
    out = {f: open(os.path.join(d, f)).read() for f in os.listdir(d) if f.endswith(".pws")}
    shutil.rmtree(d, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr, out


class Bad(Exception):
    pass


def pws(text):
    """-> list of (target, op, a, b) with ops I, C, V, +, *, XOR, minus, NAAB, NOT, SS, PASS"""
    out = []
    for n, l in enumerate(text.split("\n")):
        t = l.split()
        if not t: continue
        if t[0] != "P" or t[-1] != "E" or t[2] != "=": raise Bad(f"line {n + 1}: {l!r}")
        tg, rhs = t[1], t[3:-1]
        try:
            if len(rhs) == 1:
                r = rhs[0]
                if r[0] in "IV": out.append((tg, r[0], int(r[1:]), 0))
                else: out.append((tg, "C", int(r), 0))
            elif len(rhs) == 3 and rhs[0][0] == "V" and rhs[2][0] == "V" and rhs[1] in ("+", "*", "XOR", "minus", "NAAB", "NOT", "SS", "PASS"):
                out.append((tg, rhs[1], int(rhs[0][1:]), int(rhs[2][1:])))
            else: raise Bad(f"line {n + 1}: {l!r}")
        except ValueError:
            raise Bad(f"line {n + 1}: {l!r}")
    return out


def execute(D, prog, inp):
    """-> (values by V number, list of outputs in order); a wire used before it is defined, or defined twice, is an error"""
    V, outs, seen_o = {}, [], set()

    def g(i):
        if i not in V: raise Bad(f"V{i} is used before it is defined")
        return V[i]
    for tg, op, a, b in prog:
        if op == "I": x = inp(a)
        elif op == "C": x = D.c(a)
        elif op == "V": x = g(a)
        elif op == "SS":
            if b < a: raise Bad(f"empty range V{a}..V{b}")
            x = g(a)
            for k in range(a + 1, b + 1): x = D.op("+", x, g(k))
        else:
            u, v = g(a), g(b)
            if op in "+*": x = D.op(op, u, v)
            elif op == "minus": x = D.op("-", u, v)
            elif op == "XOR": x = D.op("-", D.op("+", u, v), D.op("*", D.c(2), D.op("*", u, v)))
            elif op == "NAAB": x = D.op("-", v, D.op("*", u, v))
            elif op == "NOT": x = D.op("-", D.c(1), u)
            else: x = u
        n = int(tg[1:])
        if tg[0] == "O":
            if n in seen_o: raise Bad(f"{tg} is defined twice")
            seen_o.add(n); outs.append((n, x))
        else:
            if n in V: raise Bad(f"{tg} is defined twice")
            V[n] = x
    return V, [x for _, x in sorted(outs)]


# ------------------------------------------------------------------------------------------- the reference
# input layout, in order (name, number of words, bits per word; None = one field element per word)
LAYOUT = [("const", NCONST, None), ("W", 64, None), ("Wb", 15, 32), ("Wb", 48, 34), ("K", 64, None), ("H", 8, None), ("Ho", 8, None), ("Hob", 8, 33)] + \
         [(x + "b", 1, 32) for x in "abcefg"] + [("ao", 64, 35), ("eo", 64, 35)]


def layout():
    pos, names = 0, []
    cnt = {}
    for name, n, bits in LAYOUT:
        for i in range(n):
            j = cnt.get(name, 1 if name == "Wb" else 0)
            cnt[name] = j + 1
            names += [(name, j, None)] if bits is None else [(name, j, k) for k in range(bits)]
    return names


class Ref:
    """the constraint system, over the named inputs; weighted: a word is the sum of bit k times 2^k"""

    def __init__(self, D, sym):
        self.D, self.sym, self.cons = D, sym, []       # cons: (label, weighted term, plain term)

    def add(self, *xs):
        r = xs[0]
        for x in xs[1:]: r = self.D.op("+", r, x)
        return r

    def mul(self, *xs):
        r = xs[0]
        for x in xs[1:]: r = self.D.op("*", r, x)
        return r

    def k(self, c, x): return self.D.op("*", self.D.c(c), x)

    def xor3(self, x, y, z):
        """x+y+z - 2(xy+yz+xz) + 4xyz"""
        return self.add(x, y, z, self.k(-2, self.add(self.mul(y, x), self.mul(z, y), self.mul(z, x))), self.k(4, self.mul(z, self.mul(y, x))))

    def word(self, bits):
        """-> (weighted, plain)"""
        w, p = self.D.c(0), self.D.c(0)
        for i, b in reversed(list(enumerate(bits))):
            w = self.D.op("+", w, self.k(1 << i, b))
            p = self.D.op("+", p, b)
        return w, p

    def eq(self, label, lhs, rhs):
        self.cons.append((label,) + tuple(self.D.op("-", lhs[i], rhs[i]) for i in (0, 1)))

    def build(self):
        D, s = self.D, self.sym
        F = lambda n, i: (s[(n, i, None)],) * 2
        B = lambda n, i, w=32: [s[(n, i, k)] for k in range(w)]
        zero = D.c(0)
        rotr = lambda b, n: [b[(i + n) % 32] for i in range(32)]
        shr = lambda b, n: [b[i + n] if i + n < 32 else zero for i in range(32)]
        x3 = lambda p, q, r: [self.xor3(*t) for t in zip(p, q, r)]
        S0 = lambda b: x3(rotr(b, 2), rotr(b, 13), rotr(b, 22))
        S1 = lambda b: x3(rotr(b, 6), rotr(b, 11), rotr(b, 25))
        s0 = lambda b: x3(rotr(b, 7), rotr(b, 18), shr(b, 3))
        s1 = lambda b: x3(rotr(b, 17), rotr(b, 19), shr(b, 10))
        maj = lambda a, b, c: [self.xor3(self.mul(x, y), self.mul(y, z), self.mul(x, z)) for x, y, z in zip(a, b, c)]

        def ch(e, f, g):
            out = []
            for x, y, z in zip(e, f, g):
                p, q = self.mul(x, y), D.op("-", z, self.mul(x, z))
                out.append(self.add(p, q, self.k(-2, self.mul(p, q))))
            return out
        plus = lambda *ws: tuple(self.add(*[w[i] for w in ws]) for i in (0, 1))
        # every purported bit is a bit
        for name, i, k in layout():
            if k is not None:
                b = s[(name, i, k)]
                self.cons.append((f"{name}[{i}].{k} is a bit",) + (D.op("-", b, self.mul(b, b)),) * 2)
        for i in range(1, 64): self.eq(f"W[{i}] = its bits", self.word(B("Wb", i)), F("W", i))
        for n, h in zip("abcefg", (0, 1, 2, 4, 5, 6)): self.eq(f"{n} = H[{h}]", self.word(B(n + "b", 0)), F("H", h))
        for i in range(8): self.eq(f"Hout[{i}] = its low bits", self.word(B("Hob", i)), F("Ho", i))
        for r in range(16, 64):
            self.eq(f"schedule W[{r}]", self.word(B("Wb", r, 34)),
                    plus(self.word(s1(B("Wb", r - 2))), F("W", r - 7), self.word(s0(B("Wb", r - 15))), F("W", r - 16)))
        bits = {n: B(n + "b", 0) for n in "abcefg"}
        val = {n: self.word(bits[n]) for n in bits}
        val["d"], val["h"] = F("H", 3), F("H", 7)
        for r in range(64):
            t1 = plus(val["h"], self.word(S1(bits["e"])), self.word(ch(bits["e"], bits["f"], bits["g"])), F("K", r), F("W", r))
            t2 = plus(self.word(S0(bits["a"])), self.word(maj(bits["a"], bits["b"], bits["c"])))
            self.eq(f"round {r}: a", self.word(B("ao", r, 35)), plus(t1, t2))
            self.eq(f"round {r}: e", self.word(B("eo", r, 35)), plus(val["d"], t1))
            for x, y in (("h", "g"), ("g", "f"), ("f", "e"), ("d", "c"), ("c", "b"), ("b", "a")):
                val[x] = val[y]
                if y in bits: bits[x] = bits[y]
            bits["e"], bits["a"] = B("eo", r), B("ao", r)
            val["e"], val["a"] = self.word(bits["e"]), self.word(bits["a"])
        for i, n in enumerate("abcdefgh"): self.eq(f"final {n}", self.word(B("Hob", i, 33)), plus(val[n], F("H", i)))
        return self.cons


IDENT = "unweighted-bit-sums"


def witness(data):
    """the inputs of a block for a one-block message, from the standard; checked against hashlib"""
    M = 0xffffffff
    pr = []
    n = 2
    while len(pr) < 64:
        if all(n % q for q in pr): pr.append(n)
        n += 1

    def root(x, k):
        r = int(round(x ** (1.0 / k)))
        while r ** k > x: r -= 1
        while (r + 1) ** k <= x: r += 1
        return r
    H = [root(p << 64, 2) & M for p in pr[:8]]
    K = [root(p << 96, 3) & M for p in pr]
    msg = data + b"\x80" + bytes(55 - len(data)) + (8 * len(data)).to_bytes(8, "big")
    W = [int.from_bytes(msg[4 * i:4 * i + 4], "big") for i in range(16)]
    rot = lambda x, n: (x >> n | x << (32 - n)) & M
    full = list(W)
    for i in range(16, 64):
        x = (rot(W[i - 2], 17) ^ rot(W[i - 2], 19) ^ W[i - 2] >> 10) + W[i - 7] + (rot(W[i - 15], 7) ^ rot(W[i - 15], 18) ^ W[i - 15] >> 3) + W[i - 16]
        full.append(x); W.append(x & M)
    a, b, c, d, e, f, g, h = H
    env = {}
    for x, y in zip("abcefg", (a, b, c, e, f, g)): env[(x + "b", 0)] = y
    for r in range(64):
        t1 = h + (rot(e, 6) ^ rot(e, 11) ^ rot(e, 25)) + (e & f ^ ~e & M & g) + K[r] + W[r]
        t2 = (rot(a, 2) ^ rot(a, 13) ^ rot(a, 22)) + (a & b ^ b & c ^ a & c)
        env[("ao", r)], env[("eo", r)] = t1 + t2, d + t1
        a, b, c, d, e, f, g, h = (t1 + t2) & M, a, b, c, (d + t1) & M, e, f, g
    out = [x + y for x, y in zip((a, b, c, d, e, f, g, h), H)]
    assert b"".join((x & M).to_bytes(4, "big") for x in out) == hashlib.sha256(data).digest()
    for i in range(64): env[("W", i)], env[("K", i)], env[("Wb", i)] = W[i], K[i], full[i]
    for i in range(8): env[("H", i)], env[("Ho", i)], env[("Hob", i)] = H[i], out[i] & M, out[i]
    res = {}
    for name, i, k in layout():
        if name == "const": v = 0 if i == 0 else 2 << i
        else: v = env[(name, i)] if k is None else env[(name, i)] >> k & 1
        res["_".join(str(x) for x in (name, i, k) if x is not None)] = v
    return res


def values(D, t, env, memo):
    for n in range(len(memo), t + 1):
        k = D.nodes[n]
        memo[n] = env.get(k[1], 0) if k[0] == "S" else k[1] if k[0] == "C" else \
            (memo[k[1]] + memo[k[2]] if k[0] == "+" else memo[k[1]] - memo[k[2]] if k[0] == "-" else memo[k[1]] * memo[k[2]]) % P
    return memo[t]


def block_check():
    st, vio, und = Stats(), [], []
    doc = {"command": "jython bin/sha256gen_merkle.py"}
    rc, msg, out = script([])
    st.paths += 1; st.runs += 1
    if rc != 0 or "SHA256_64.pws" not in out: return st, [(f"sha256gen_merkle.py: exits with {rc}: {msg[-200:]}", doc)], []
    D = Dag()
    names = layout()
    sym = {k: (D.c(0) if k == ("const", 0, None) else D.s("_".join(str(x) for x in k if x is not None))) for k in names}

    def inp(i):
        if i >= len(names): raise Bad(f"input I{i} outside the {len(names)} inputs of a block")
        used.add(i)
        return sym[names[i]]
    used = set()
    try:
        prog = pws(out["SHA256_64.pws"])
        V, got = execute(D, prog, inp)
    except Bad as e:
        return st, [(f"SHA256_64.pws: {e}", doc)], []
    if used != set(range(len(names))): return st, [(f"SHA256_64.pws: inputs {sorted(set(range(len(names))) - used)[:5]} are not read", doc)], []
    cons = Ref(D, sym).build()
    # the reference accepts an honest computation (and hashlib agrees with it)
    wit = witness(b"abc")
    memo = {}
    bad = [l for l, w, _ in cons if values(D, w, wit, memo)]
    if bad: return st, [], [f"the reference rejects an honest SHA-256 witness: {bad[:3]}"]
    neg = lambda x: (-x) % P
    by = {}
    for j, x in enumerate(got): by.setdefault(D.sh[x], []).append(j)
    pairs, covered, plain = [], set(), []
    for label, w, p in cons:
        hit = None
        for t, kind in ((w, "w"), (p, "p")):
            if D.sh[t] in by: hit = (t, by[D.sh[t]], False, kind)
            elif neg(D.sh[t]) in by: hit = (t, by[neg(D.sh[t])], True, kind)
            if hit: break
        if hit is None:
            # which output comes closest is not known: show an assignment that only this constraint notices
            vio.append((f"SHA256_64.pws: no output is the constraint `{label}` (neither as written by SHA-256 nor with unweighted bit sums)", {**doc, "constraint": label}))
            continue
        t, js, ng, kind = hit
        if kind == "p": plain.append(label)
        covered |= set(js)
        pairs.append((label, js[0], D.op("-", D.c(0), t) if ng else t))
    extra = [j for j in range(len(got)) if j not in covered and got[j] != D.c(0)]
    for j in extra[:3]: vio.append((f"SHA256_64.pws: output {j} is not one of the SHA-256 constraints", {**doc, "output": j}))
    # the solver decides the pairs
    N = 60
    big = [p for p in pairs if "is a bit" not in p[0]]
    sml = [p for p in pairs if "is a bit" in p[0]]
    chunks = [[p] for p in big if "round" in p[0] or "schedule" in p[0]] + [big[i:i + N] for i in range(0, len(big), N) if False]
    rest = [p for p in big if not ("round" in p[0] or "schedule" in p[0])]
    chunks += [rest[i:i + N] for i in range(0, len(rest), N)] + [sml[i:i + 1000] for i in range(0, len(sml), 1000)]
    for ch in chunks:
        v, u = same(D, [got[j] for _, j, _ in ch], [t for _, _, t in ch], st, "SHA256_64.pws: " + ch[0][0])
        for m, d in v: d.update(doc)
        vio += v; und += u
    if plain:
        rej = [j for _, j, _ in pairs if values(D, got[j], wit, memo)]
        vio.append((f"SHA256_64.pws: rejects an honest SHA-256 computation ({len(rej)} constraints do not vanish): {len(plain)} constraints take a word to be the plain sum of its bits instead of the sum of bit k times 2^k",
                    {**doc, "ident": IDENT, "constraints": plain[:10]}))
    return st, vio, und


# ------------------------------------------------------------------------------------------- the wiring of the Merkle tree
def wiring(m):
    """-> per block the list of (class, key): what feeds each input of the block"""
    names = layout()
    nb = 2 ** (m + 1) - 1
    first, lay = [], 0
    # blocks by level, leaves first
    level = [(l, i) for l in range(m + 1) for i in range(2 ** (m - l))]
    idx = {x: n for n, x in enumerate(level)}
    rows = []
    for b, (l, i) in enumerate(level):
        ch = [idx[(l - 1, 2 * i)], idx[(l - 1, 2 * i + 1)]] if l else None
        row = []
        for name, j, k in names:
            if name == "const": row.append(("const", j))
            elif name in ("K", "H", "ab", "bb", "cb", "eb", "fb", "gb"): row.append(("pub", (name, j, k)))
            elif name == "W" and j < 16 and l: row.append(("Ho", (ch[j // 8], j % 8)))
            elif name == "Wb" and j < 16 and l: row.append(("Hob", (ch[j // 8], j % 8, k)))
            elif name == "Ho": row.append(("pub", ("root", j, None)) if b == nb - 1 else ("Ho", (b, j)))
            elif name == "Hob": row.append(("Hob", (b, j, k)))
            else: row.append(("own", (b, name, j, k)))
        rows.append(row)
    rows.append(rows[-1])
    return rows


def rdl_check(m, padding):
    st = Stats()
    args = ["-m", str(m)] + ([] if padding else ["-P"])
    what = "sha256gen_merkle.py " + " ".join(args)
    doc = {"command": "jython bin/" + what}
    rc, msg, out = script(args)
    st.paths += 1; st.runs += 1
    f = f"SHA256_64_merkle_{m}_rdl.pws"
    if rc != 0 or f not in out: return st, [(f"{what}: exits with {rc}: {msg[-200:]}", doc)], []
    D = Dag()
    ins = []
    try:
        def inp(i): ins.append(i); return D.s(f"I{i}")
        V, got = execute(D, pws(out[f]), inp)
    except Bad as e:
        return st, [(f"{what}: {e}", doc)], []
    want = [c for r in wiring(m) for c in r]
    if len(got) != len(want): return st, [(f"{what}: {len(got)} outputs for {2 ** (m + 1)} blocks of {len(layout())} inputs", doc)], []
    # each source gets the input that feeds its first cell; different sources must get different inputs
    src, back, w = {}, {}, []
    for c, g in zip(want, got):
        if c[0] == "const":
            w.append(D.c(0 if c[1] == 0 else 2 << c[1])); continue
        if c not in src:
            k = D.nodes[g]
            if k[0] != "S": return st, [(f"{what}: {c} is fed by a constant", doc)], []
            if g in back: return st, [(f"{what}: {c} and {back[g]} are fed by the same input {k[1]}", doc)], []
            src[c] = g; back[g] = c
        w.append(src[c])
    vio, und = [], []
    for i in range(0, len(got), 4000):
        v, u = same(D, got[i:i + 4000], w[i:i + 4000], st, f"{what}: cells {i}..")
        for x, d in v: d.update(doc); d.pop("inputs", None); d["cell"] = i + d.get("output", 0); d["source"] = want[d["cell"]]
        vio += v; und += u
    num = lambda g: int(D.nodes[g][1][1:])
    pub = sorted(num(g) for c, g in src.items() if c[0] == "pub")
    prv = sorted(num(g) for c, g in src.items() if c[0] != "pub")
    if pub != list(range(NCONST, NCONST + len(pub))): vio.append((f"{what}: the public inputs are not the first inputs", {**doc, "public": pub[:5]}))
    start = NCONST + len(pub)
    if padding: start = max(1 << (len(prv) - 1).bit_length(), 0)
    if prv != list(range(start, start + len(prv))):
        vio.append((f"{what}: the private inputs are {prv[0]}.., {start}.. expected" + (" (the public half is padded to the private size)" if padding else ""), doc))
    return st, vio, und


def tasks(prop, th):
    t = [("block", block_check)]
    for m in (1, 2) + ((3, 4) if th else ()):
        for pad in (True, False):
            t.append((f"merkle {m} {'padded' if pad else 'plain'}", lambda m=m, pad=pad: rdl_check(m, pad)))
    return t, ["the one 64-round block program (61k gates), all values of its 7226 inputs; Merkle trees of 2" + (", 4, 8, 16" if th else ", 4") + " leaves, with and without padding"]
