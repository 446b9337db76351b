"""Symbolic execution of LLVM IR (clang -O0, sroa + simplifycfg) for the repository's leaf functions.

Values are Python ints when concrete; otherwise values of a domain:
  BVDom   z3 bit-vectors;
  LIADom  integer polynomials over bounded variables, every wrap-around / shift / mask made explicit by quotient and
          remainder variables, non-linear monomials opaque (so queries are linear integer arithmetic).
Branches on symbolic conditions fork; forks are followed by re-execution with a decision prefix, and the solver prunes
infeasible sides."""
import itertools, os, re, subprocess, tempfile
import z3
from core import *

# ------------------------------------------------------------------------------------------- module
TOK = re.compile(r'@"[^"]*"|%"[^"]*"|@[\w.$-]+|%[\w.$-]+|c"(?:[^"\\]|\\[0-9A-Fa-f]{2})*"|"[^"]*"|-?\d+|[A-Za-z_][\w.]*|\.\.\.|[()\[\]{}<>,=*!:#]|\S')


def split_top(s, sep=","):
    out, d, cur, q = [], 0, "", False
    for ch in s:
        if ch == '"': q = not q
        if not q:
            if ch in "([{<": d += 1
            elif ch in ")]}>": d -= 1
            elif ch == sep and d == 0:
                out.append(cur.strip()); cur = ""; continue
        cur += ch
    if cur.strip(): out.append(cur.strip())
    return out


class Fn:
    def __init__(self, name):
        self.name, self.params, self.blocks, self.order = name, [], {}, []


class Module:
    def __init__(self, text):
        self.types, self.globals, self.fns, self.alias = {}, {}, {}, {}
        cur = None
        blk = None
        for line in text.splitlines():
            if cur is not None:
                if line.startswith("}"):
                    cur = None
                    continue
                l = line.split(" ; ")[0].rstrip() if '"' not in line else line.rstrip()
                l = re.sub(r"\s+;.*$", "", l) if '"' not in l else l
                if not l.strip():
                    continue
                m = re.match(r'^("[^"]+"|[\w.$-]+):', l)
                if m:
                    blk = m.group(1).strip('"')
                    cur.blocks[blk] = []
                    cur.order.append(blk)
                    continue
                if not cur.order:
                    blk = str(len(cur.params))
                    cur.blocks[blk] = []; cur.order.append(blk)
                s = l.strip()
                s = re.sub(r",? ?![\w.]+ ![\w.]+", "", s)
                s = re.sub(r" #\d+", "", s)
                # continuation of a switch
                if cur.blocks[blk] and cur.blocks[blk][-1].startswith("switch") and not cur.blocks[blk][-1].endswith("]"):
                    cur.blocks[blk][-1] += " " + s
                else:
                    cur.blocks[blk].append(s)
                continue
            if line.startswith("define"):
                m = re.search(r'(@"[^"]+"|@[\w.$-]+)\(', line)
                name = m.group(1)[1:].strip('"')
                cur = Fn(name)
                rest = line[m.end():]
                d, i = 1, 0
                while d:
                    if rest[i] == "(": d += 1
                    if rest[i] == ")": d -= 1
                    i += 1
                for n, a in enumerate(split_top(rest[:i - 1])):
                    t = re.findall(r'%"[^"]*"|%[\w.$-]+', a)
                    nm = a.split()[-1] if a.split()[-1].startswith("%") else f"%{n}"
                    by = re.search(r'byval\(([^)]*)\)', a)
                    cur.params.append((nm, a.split()[0], by.group(1) if by else None))
                self.fns[name] = cur
                blk = None
            elif line.startswith("%") and " = type " in line:
                n, t = line.split(" = type ", 1)
                self.types[n] = t
            elif line.startswith("@"):
                m = re.match(r'(@"[^"]+"|@[\w.$-]+) = (.*)', line)
                n, r = m.group(1)[1:].strip('"'), m.group(2)
                ma = re.search(r'\balias\b.*, ptr @"?([\w.$-]+)"?', r)
                if ma:
                    self.alias[n] = ma.group(1)
                    continue
                mg = re.search(r'\b(global|constant) (.*)', r)
                if mg:
                    self.globals[n] = mg.group(2)
        self._lay = {}

    # layout ------------------------------------------------------------------
    def size_align(self, t):
        t = t.strip()
        if t in self._lay: return self._lay[t]
        if t == "ptr": r = (8, 8)
        elif re.fullmatch(r"i\d+", t):
            b = max(1, (int(t[1:]) + 7) // 8)
            p = 1
            while p < b: p *= 2
            r = (p, min(p, 16))
        elif t in ("double",): r = (8, 8)
        elif t in ("float",): r = (4, 4)
        elif t.startswith("["):
            n, e = re.match(r"\[(\d+) x (.*)\]$", t).groups()
            s, a = self.size_align(e)
            r = (int(n) * s, a)
        elif t.startswith("{") or t.startswith("<{"):
            offs, sz, al = self.struct(t)
            r = (sz, al)
        elif t in self.types:
            r = self.size_align(self.types[t])
        else:
            raise EncodeError("type " + t)
        self._lay[t] = r
        return r

    def fields(self, t):
        while t in self.types: t = self.types[t]
        return split_top(t.strip()[1:-1].strip() if t.startswith("{") else t.strip()[2:-2])

    def struct(self, t):
        o, al, offs = 0, 1, []
        for f in self.fields(t):
            s, a = self.size_align(f)
            o = (o + a - 1) // a * a
            offs.append(o)
            o += s
            al = max(al, a)
        return offs, (o + al - 1) // al * al, al

    def resolve(self, n):
        return self.alias.get(n, n)


def load_module(src, include, extra=()):
    d = tempfile.mkdtemp(dir=scratch())
    ll, l2 = os.path.join(d, "a.ll"), os.path.join(d, "b.ll")
    cmd = ["clang++", "-std=c++11", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-exceptions", "-fno-discard-value-names", "-w", "-S", "-emit-llvm",
           *[f"-I{i}" for i in include], *extra, src, "-o", ll]
    r = run(cmd)
    if r.returncode: raise BuildError(" ".join(cmd) + "\n" + r.stderr[-2000:])
    r = run(["opt", "-passes=function(sroa,simplifycfg)", "-S", ll, "-o", l2])
    if r.returncode: raise BuildError("opt: " + r.stderr[-2000:])
    text = open(l2).read()
    m = Module(text)
    m.text = open(ll).read()
    return m


# ------------------------------------------------------------------------------------------ domains
class Ptr:
    __slots__ = ("o", "off")

    def __init__(self, o, off): self.o, self.off = o, off


def mask(w): return (1 << w) - 1


class BVDom:
    name = "QF_BV"

    def __init__(self): self.cons = []; self.n = itertools.count()

    def fresh(self, w, tag="f"):
        return z3.BitVec(f"{tag}!{next(self.n)}", w)

    def lift(self, x, w): return z3.BitVecVal(x, w) if isinstance(x, int) else x

    def bin(self, op, w, a, b):
        a, b = self.lift(a, w), self.lift(b, w)
        if op == "add": return a + b
        if op == "sub": return a - b
        if op == "mul": return a * b
        if op == "and": return a & b
        if op == "or": return a | b
        if op == "xor": return a ^ b
        if op == "shl": return a << b
        if op == "lshr": return z3.LShR(a, b)
        if op == "ashr": return a >> b
        if op == "udiv": return z3.UDiv(a, b)
        if op == "urem": return z3.URem(a, b)
        raise EncodeError("bv op " + op)

    def cmp(self, p, w, a, b):
        a, b = self.lift(a, w), self.lift(b, w)
        return {"eq": lambda: a == b, "ne": lambda: a != b, "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b), "ugt": lambda: z3.UGT(a, b),
                "uge": lambda: z3.UGE(a, b), "slt": lambda: a < b, "sle": lambda: a <= b, "sgt": lambda: a > b, "sge": lambda: a >= b}[p]()

    def zext(self, a, w0, w1): return z3.ZeroExt(w1 - w0, a)

    def sext(self, a, w0, w1): return z3.SignExt(w1 - w0, a)

    def trunc(self, a, w0, w1): return z3.Extract(w1 - 1, 0, a)

    def from_bool(self, c, w): return z3.If(c, z3.BitVecVal(1, w), z3.BitVecVal(0, w))

    def to_bool(self, a, w): return z3.Extract(0, 0, a) == 1

    def ite(self, c, w, a, b): return z3.If(c, self.lift(a, w), self.lift(b, w))

    def ctlz(self, a, w):
        r = z3.BitVecVal(w, w)
        for i in range(w):
            r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(w - 1 - i, w), r)
        return r


class Poly:
    """integer polynomial: {monomial(tuple of var names): coeff}; () is the constant"""
    __slots__ = ("t", "key")

    def __init__(self, t):
        self.t = {m: c for m, c in t.items() if c}
        self.key = None

    def k(self):
        if self.key is None: self.key = tuple(sorted(self.t.items()))
        return self.key


class LIADom:
    name = "QF_LIA"

    def __init__(self):
        self.cons, self.bnd, self.n, self.memo, self.zv = [], {}, itertools.count(), {}, {}

    def var(self, name, lo, hi):
        self.bnd[(name,)] = (lo, hi)
        v = self.zm((name,))
        self.cons += [v >= lo, v <= hi]
        return Poly({(name,): 1})

    def fresh(self, w, tag="f"):
        return self.var(f"{tag}!{next(self.n)}", 0, mask(w))

    def zm(self, m):
        if m not in self.zv: self.zv[m] = z3.Int("*".join(m))
        return self.zv[m]

    def mb(self, m):
        if m not in self.bnd:
            lo, hi = 1, 1
            for x in m:
                hi *= self.bnd[(x,)][1]
                lo *= self.bnd[(x,)][0]
            self.bnd[m] = (lo, hi)
            v = self.zm(m)
            self.cons += [v >= lo, v <= hi]
        return self.bnd[m]

    def lift(self, x, w=None): return Poly({(): x}) if isinstance(x, int) else x

    def z(self, p):
        p = self.lift(p)
        s = z3.IntVal(p.t.get((), 0))
        terms = [s]
        for m, c in p.t.items():
            if m: self.mb(m); terms.append(z3.IntVal(c) * self.zm(m))
        return z3.Sum(terms) if len(terms) > 1 else s

    def bounds(self, p):
        lo = hi = p.t.get((), 0)
        for m, c in p.t.items():
            if not m: continue
            a, b = self.mb(m)
            if c > 0: lo += c * a; hi += c * b
            else: lo += c * b; hi += c * a
        kb = self.memo.get(("b", p.k()))
        if kb: lo, hi = max(lo, kb[0]), min(hi, kb[1])
        return lo, hi

    def addp(self, a, b, s=1):
        t = dict(a.t)
        for m, c in b.t.items(): t[m] = t.get(m, 0) + s * c
        return Poly(t)

    def mulp(self, a, b):
        t = {}
        if len(a.t) * len(b.t) > 4000: raise EncodeError("product too large")
        for m, c in a.t.items():
            for n, d in b.t.items():
                k = tuple(sorted(m + n))
                t[k] = t.get(k, 0) + c * d
        return Poly(t)

    def const(self, p):
        if isinstance(p, int): return p
        if not p.t: return 0
        if len(p.t) == 1 and () in p.t: return p.t[()]
        return None

    def norm(self, p):
        c = self.const(p)
        return p if c is None else c

    def divmod(self, p, k):
        """p = q*2^k + r, 0 <= r < 2^k (p may be negative)"""
        p = self.lift(p)
        c = self.const(p)
        if c is not None: return c >> k, c & mask(k)
        key = ("d", p.k(), k)
        if key in self.memo: return self.memo[key]
        M = 1 << k
        hi_t, lo_t = {}, {}
        for m, co in p.t.items():
            q, r = divmod(co, M) if co >= 0 else (-((-co) // M), -((-co) % M))
            if q and (r == 0 or m == ()):
                hi_t[m] = q
                if r: lo_t[m] = r
            else: lo_t[m] = co
        lp = Poly(lo_t)
        l, h = self.bounds(lp)
        t = self.tz(lp)
        if 0 < t < k and not (l >= 0 and h < M):
            q2, r2 = self.divmod(Poly({m: co >> t for m, co in lp.t.items()}), k - t)
            res = (self.norm(self.addp(Poly(hi_t), self.lift(q2))), self.norm(self.mulp(self.lift(r2), Poly({(): 1 << t}))))
        elif l >= 0 and h < M:
            res = (self.norm(Poly(hi_t)), self.norm(lp))
        else:
            ql, qh = l >> k, h >> k
            n = next(self.n)
            if ql == qh:
                q2 = Poly({(): ql})
                r = self.var(f"r!{n}", 0, M - 1)
            else:
                q2 = self.var(f"q!{n}", ql, qh)
                r = self.var(f"r!{n}", 0, M - 1)
            self.cons.append(self.z(lp) == M * self.z(q2) + self.z(r))
            res = (self.norm(self.addp(Poly(hi_t), q2)), r)
        self.memo[key] = res
        return res

    def wrap(self, p, w):
        c = self.const(p)
        if c is not None: return c & mask(w)
        lo, hi = self.bounds(p)
        if lo >= 0 and hi <= mask(w): return p
        return self.divmod(p, w)[1]

    def tz(self, p):
        t = 9999
        for c in p.t.values(): t = min(t, (c & -c).bit_length() - 1)
        return t

    def bin(self, op, w, a, b):
        A, B = self.lift(a), self.lift(b)
        if op == "add": return self.wrap(self.addp(A, B), w)
        if op == "sub": return self.wrap(self.addp(A, B, -1), w)
        if op == "mul": return self.wrap(self.mulp(A, B), w)
        ca, cb = self.const(A), self.const(B)
        if op == "shl" and cb is not None: return self.wrap(self.mulp(A, Poly({(): 1 << cb})), w)
        if op == "lshr" and cb is not None: return self.divmod(A, cb)[0]
        if op == "and":
            if ca is not None: A, B, ca, cb = B, A, cb, ca
            if cb is not None: return self.norm(self.band(A, cb))
        if op == "or":
            for X, Y in ((A, B), (B, A)):
                lo, hi = self.bounds(X)
                if lo >= 0 and self.tz(Y) >= hi.bit_length(): return self.norm(self.addp(X, Y))
        if op in ("or", "xor") and (ca is not None or cb is not None):
            if ca is not None: A, B, ca, cb = B, A, cb, ca
            r = self.addp(self.addp(A, Poly({(): cb})), self.lift(self.band(A, cb)), -1 if op == "or" else -2)
            la, ha = self.bounds(A)
            if la >= 0: self.memo[("b", r.k())] = (max(la, cb) if op == "or" else 0, mask(max(ha.bit_length(), cb.bit_length())))
            return self.norm(r)
        if op == "xor":
            if ca is not None: A, B, ca, cb = B, A, cb, ca
            if cb == mask(w): return self.norm(self.addp(Poly({(): cb}), A, -1))
        if op in ("udiv", "urem") and cb and cb & (cb - 1) == 0:
            return self.divmod(A, cb.bit_length() - 1)[0 if op == "udiv" else 1]
        if op in ("udiv", "urem", "sdiv", "srem") and cb:
            lo, hi = self.bounds(A)
            lim = 1 << (w - 1) if op[0] == "s" else 1 << w
            if 0 <= lo and hi < lim and cb < lim:
                key = ("dv", A.k(), cb)
                if key not in self.memo:
                    n = next(self.n)
                    q, r = self.var(f"q!{n}", lo // cb, hi // cb), self.var(f"r!{n}", 0, cb - 1)
                    self.cons.append(self.z(A) == cb * self.z(q) + self.z(r))
                    self.memo[key] = (q, r)
                return self.memo[key][0 if op[1:] == "div" else 1]
        if op in ("and", "or", "xor"):
            # bit by bit when one operand is a single bit, else give up
            la, ha = self.bounds(A); lb, hb = self.bounds(B)
            if 0 <= la and ha <= 1 and 0 <= lb and hb <= 1:
                p, q = self.z(A) == 1, self.z(B) == 1
                return self.from_bool({"and": z3.And(p, q), "or": z3.Or(p, q), "xor": z3.Xor(p, q)}[op], w)
        raise EncodeError(f"integer domain: {op} i{w}")

    def band(self, A, c):
        """A & c for a constant c: the sum over the runs of ones of c"""
        out, t = Poly({}), 0
        while c >> t:
            if not (c >> t) & 1: t += 1; continue
            n = 0
            while (c >> (t + n)) & 1: n += 1
            q = self.divmod(A, t)[0] if t else A
            out = self.addp(out, self.mulp(self.lift(self.divmod(self.lift(q), n)[1]), Poly({(): 1 << t})))
            t += n
        return out

    def cmp(self, p, w, a, b):
        A, B = self.lift(a), self.lift(b)
        (la, ha), (lb, hb) = self.bounds(A), self.bounds(B)
        if p[0] == "s" and p not in ("eq", "ne"):
            if ha >= 1 << (w - 1) or hb >= 1 << (w - 1): raise EncodeError("signed compare")
            p = "u" + p[1:]
        if p == "eq" and (ha < lb or hb < la): return False
        if p == "ne" and (ha < lb or hb < la): return True
        d = self.addp(A, B, -1)
        l, h = self.bounds(d)
        if p == "ult" and h < 0 or p == "ule" and h <= 0 or p == "ugt" and l > 0 or p == "uge" and l >= 0: return True
        if p == "ult" and l >= 0 or p == "ule" and l > 0 or p == "ugt" and h <= 0 or p == "uge" and h < 0: return False
        if not d.t: return p in ("eq", "ule", "uge")
        x, y = self.z(A), self.z(B)
        return {"eq": lambda: x == y, "ne": lambda: x != y, "ult": lambda: x < y, "ule": lambda: x <= y, "ugt": lambda: x > y, "uge": lambda: x >= y}[p]()

    def zext(self, a, w0, w1): return a

    def sext(self, a, w0, w1):
        if self.bounds(a)[1] < 1 << (w0 - 1): return a
        b = self.from_bool(self.z(a) >= 1 << (w0 - 1), w1)
        return self.norm(self.addp(self.lift(a), self.mulp(self.lift(b), Poly({(): (1 << w1) - (1 << w0)}))))

    def trunc(self, a, w0, w1): return self.divmod(a, w1)[1]

    def from_bool(self, c, w):
        key = ("fb", c.get_id())
        if key not in self.memo:
            v = self.var(f"b!{next(self.n)}", 0, 1)
            self.cons.append((self.z(v) == 1) == c)
            self.memo[key] = v
            self.memo[("keep", c.get_id())] = c
        return self.memo[key]

    def to_bool(self, a, w): return self.z(self.lift(self.divmod(a, 1)[1])) == 1

    def ite(self, c, w, a, b):
        A, B = self.lift(a), self.lift(b)
        if A.k() == B.k(): return self.norm(A)
        (la, ha), (lb, hb) = self.bounds(A), self.bounds(B)
        v = self.var(f"i!{next(self.n)}", min(la, lb), max(ha, hb))
        self.cons += [z3.Implies(c, self.z(v) == self.z(A)), z3.Implies(z3.Not(c), self.z(v) == self.z(B))]
        return v

    def ctlz(self, a, w):
        raise EncodeError("ctlz in the integer domain")


# ---------------------------------------------------------------------------------------- execution
class Abort(Exception):
    pass


class Ended(Exception):
    pass


class Exec:
    """One execution along a decision prefix."""
    STEPS = 400000
    BR = 3000      # ms for the feasibility of one side of a branch; undecided sides are explored

    def __init__(self, mod, dom, decisions, stats, image=None, contracts=None, externs=None):
        self.m, self.d, self.dec, self.st = mod, dom, list(decisions), stats
        self.mem, self.nobj, self.pos = {}, itertools.count(), 0
        self.new = []           # alternatives discovered
        self.pc = []
        self.image = image or {}
        self.contracts, self.ext = contracts or {}, dict(EXTERNS, **(externs or {}))
        self.gl = {}
        self.steps = 0
        self.called = set()
        self.rec = []
        self.ub = []
        self.pre = []

    # memory
    def alloc(self, size, tag=""):
        o = (next(self.nobj), tag)
        self.mem[o] = {}
        return Ptr(o, 0)

    def put(self, p, size, v):
        if not isinstance(p, Ptr): raise EncodeError("store through a non-pointer")
        cells = self.mem[p.o]
        a, b = p.off, p.off + size
        if a in cells and cells[a][0] == size:
            cells[a] = (size, v); return
        for o in [o for o, (s, _) in cells.items() if o < b and o + s > a]:
            s, x = cells.pop(o)
            if o < a: cells[o] = (a - o, self.bits(x, 8 * s, 0, 8 * (a - o)))
            if o + s > b: cells[b] = (o + s - b, self.bits(x, 8 * s, 8 * (b - o), 8 * (o + s - b)))
        cells[a] = (size, v)

    def bits(self, v, w, sh, n):
        if isinstance(v, Ptr): raise EncodeError("partial pointer")
        if isinstance(v, int): return (v >> sh) & mask(n)
        if sh: v = self.binop("lshr", w, v, sh)
        return self.trunc(v, w, n)

    def trunc(self, v, w0, w1):
        if isinstance(v, int): return v & mask(w1)
        return self.d.trunc(v, w0, w1) if w1 < w0 else v

    def zext(self, v, w0, w1):
        if isinstance(v, int): return v
        return self.d.zext(v, w0, w1) if w1 > w0 else v

    def get(self, p, size):
        if not isinstance(p, Ptr): raise EncodeError("load through a non-pointer")
        cells = self.mem[p.o]
        c = cells.get(p.off)
        if c and c[0] == size: return c[1]
        a, b = p.off, p.off + size
        parts, o = [], a
        while o < b:
            hit = None
            for k, (s, v) in cells.items():
                if k <= o < k + s: hit = (k, s, v); break
            if hit is None:
                # uninitialised byte
                nb = min([k for k in cells if k > o] + [b]) - o
                v = self.d.fresh(8 * nb, "undef")
                cells[o] = (nb, v)
                parts.append((o - a, nb, v)); o += nb
                continue
            k, s, v = hit
            n = min(k + s, b) - o
            parts.append((o - a, n, self.bits(v, 8 * s, 8 * (o - k), 8 * n)))
            o += n
        if len(parts) == 1: return parts[0][2]
        r = 0
        for o, n, v in parts:
            t = self.zext(v, 8 * n, 8 * size)
            if o: t = self.binop("shl", 8 * size, t, 8 * o)
            r = t if isinstance(r, int) and r == 0 else self.binop("or", 8 * size, r, t)
        return r

    def copy(self, dst, src, n):
        cells = self.mem[src.o]
        items = []
        # split at the borders
        for o, (s, v) in list(cells.items()):
            if o < src.off + n and o + s > src.off:
                lo, hi = max(o, src.off), min(o + s, src.off + n)
                items.append((lo - src.off, hi - lo, v if (lo, hi) == (o, o + s) else self.bits(v, 8 * s, 8 * (lo - o), 8 * (hi - lo))))
        dc = self.mem[dst.o]
        a, b = dst.off, dst.off + n
        for o in [o for o, (s, _) in dc.items() if o < b and o + s > a]:
            s, x = dc.pop(o)
            if o < a: dc[o] = (a - o, self.bits(x, 8 * s, 0, 8 * (a - o)))
            if o + s > b: dc[b] = (o + s - b, self.bits(x, 8 * s, 8 * (b - o), 8 * (o + s - b)))
        for o, s, v in items: self.put(Ptr(dst.o, dst.off + o), s, v)

    def glob(self, name):
        if name in self.gl: return self.gl[name]
        o = self.alloc(0, name)
        self.gl[name] = o
        init = self.image.get(name)
        if init is not None:
            n = len(init)
            step = 8 if n % 8 == 0 else 1
            for k in range(0, n, step): self.mem[o.o][k] = (step, int.from_bytes(init[k:k + step], "little"))
        return o

    # arithmetic
    def binop(self, op, w, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o: return (a.off - b.off) & mask(64)
            raise EncodeError("pointer arithmetic")
        if w == 1 and not (isinstance(a, int) and isinstance(b, int)):
            a, b = self.bool(a), self.bool(b)
            return z3.simplify({"and": z3.And, "or": z3.Or, "xor": z3.Xor, "add": z3.Xor, "sub": z3.Xor, "mul": z3.And}[op](a, b))
        if op in ("shl", "lshr", "ashr") and isinstance(b, int) and b >= w:
            self.ub.append(f"shift by {b} of an i{w}")
            return self.d.fresh(w, "undef")
        if isinstance(a, int) and isinstance(b, int):
            M = mask(w)
            sg = lambda x: x - (1 << w) if x >> (w - 1) else x
            if op == "add": return (a + b) & M
            if op == "sub": return (a - b) & M
            if op == "mul": return (a * b) & M
            if op == "and": return a & b
            if op == "or": return a | b
            if op == "xor": return a ^ b
            if op == "shl": return (a << b) & M
            if op == "lshr": return a >> b
            if op == "ashr": return (sg(a) >> b) & M
            if op == "udiv": return a // b
            if op == "urem": return a % b
            if op in ("sdiv", "srem"):
                x, y = sg(a), sg(b)
                q = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
                return (q if op == "sdiv" else x - q * y) & M
            raise EncodeError(op)
        # cheap identities keep terms small
        if isinstance(b, int) and b == 0 and op in ("add", "sub", "or", "xor", "shl", "lshr"): return a
        if isinstance(a, int) and a == 0 and op in ("add", "or", "xor"): return b
        if isinstance(b, int) and b == 0 and op in ("mul", "and"): return 0
        if isinstance(a, int) and a == 0 and op in ("mul", "and", "shl", "lshr"): return 0
        if isinstance(b, int) and b == mask(w) and op == "and": return a
        return self.d.bin(op, w, a, b)

    def bool(self, c):
        if isinstance(c, (int, bool)): return z3.BoolVal(bool(c))
        return c

    def cmp(self, pred, w, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            same = isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o and a.off == b.off
            if pred == "eq": return int(same)
            if pred == "ne": return int(not same)
            raise EncodeError("pointer compare")
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == "s":
                sg = lambda x: x - (1 << w) if x >> (w - 1) else x
                a, b = sg(a), sg(b); pred = "u" + pred[1:]
            return int({"eq": a == b, "ne": a != b, "ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b}[pred])
        if w == 1:
            x, y = self.bool(a), self.bool(b)
            r = x == y if pred == "eq" else x != y
            return z3.simplify(r)
        r = self.d.cmp(pred, w, a, b)
        if isinstance(r, bool): return int(r)
        return r

    def branch(self, c):
        if isinstance(c, int): return bool(c)
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.pos < len(self.dec):
            b = self.dec[self.pos]
        else:
            base = self.pre + self.d.cons + self.pc
            rt, _ = check(base + [c], self.st, self.BR, None)
            rf, _ = check(base + [z3.Not(c)], self.st, self.BR, None)
            if rt == "unsat" and rf == "unsat": raise Ended()
            if rt == "unsat": b = False
            elif rf == "unsat": b = True
            else:
                b = True
                self.new.append(self.dec[:self.pos] + [False])
            self.dec.append(b)
        self.pos += 1
        self.pc.append(c if b else z3.Not(c))
        return b

    # running
    def call(self, name, args):
        name = self.m.resolve(name)
        if name in self.contracts:
            self.called.add(name + " (contract)")
            return self.contracts[name](self, args)
        if name in self.ext:
            return self.ext[name](self, args)
        for pre, h in PREFIX_EXT:
            if name.startswith(pre): return h(self, name, args)
        if name not in self.m.fns:
            raise EncodeError("call of an unmodelled function " + name)
        self.called.add(name)
        f = self.m.fns[name]
        env = {}
        if len(args) != len(f.params): raise EncodeError("argument count of " + name)
        for (pn, ty, byval), v in zip(f.params, args):
            if byval:
                n = self.m.size_align(byval)[0]
                q = self.alloc(n)
                self.copy(q, v, n)
                v = q
            env[pn] = v
        blk, prev = f.order[0], None
        while True:
            code = f.blocks[blk]
            phis = []
            for ins in code:
                m = re.match(r'^(%"[^"]*"|%[\w.$-]+) = phi (\S+) (.*)$', ins)
                if not m: break
                for pr in re.findall(r"\[ ?(.*?), %(\"[^\"]*\"|[\w.$-]+) ?\]", m.group(3)):
                    if pr[1].strip('"') == prev:
                        phis.append((m.group(1), self.val(pr[0], m.group(2), env)))
            for k, v in phis: env[k] = v
            for ins in code:
                if " = phi " in ins: continue
                self.steps += 1
                if self.steps > self.STEPS: raise EncodeError("step limit")
                r = self.step(ins, env)
                if r is None: continue
                if r[0] == "br": prev, blk = blk, r[1]; break
                return r[1]
            else:
                raise EncodeError("block without terminator")

    def val(self, s, ty, env):
        s = s.strip()
        if s[0] == "%":
            return env[s]
        if s[0] == "@":
            return self.glob(s[1:].strip('"'))
        if s in ("true",): return 1
        if s in ("false", "null", "zeroinitializer"): return 0
        if s in ("undef", "poison"): return self.d.fresh(int(ty[1:]) if ty[0] == "i" else 64, "undef")
        if re.fullmatch(r"-?\d+", s):
            w = int(ty[1:]) if ty[0] == "i" else 64
            return int(s) & mask(w)
        m = re.match(r"getelementptr (?:inbounds )?\((.*)\)$", s)
        if m:
            return self.gep(split_top(m.group(1)), env)
        raise EncodeError("operand " + s)

    def gep(self, parts, env):
        ty = parts[0]
        base = self.val(parts[1].split(None, 1)[1], "ptr", env)
        if not isinstance(base, Ptr): raise EncodeError("gep base")
        off = 0
        for n, ix in enumerate(parts[2:]):
            it, iv = ix.split(None, 1)
            v = self.val(iv, it, env)
            if not isinstance(v, int): raise EncodeError("symbolic index")
            w = int(it[1:])
            if v >> (w - 1): v -= 1 << w
            if n == 0:
                off += v * self.m.size_align(ty)[0]
            else:
                t = ty
                while t in self.m.types: t = self.m.types[t]
                if t.startswith("["):
                    e = re.match(r"\[\d+ x (.*)\]$", t).group(1)
                    off += v * self.m.size_align(e)[0]; ty = e
                else:
                    off += self.m.struct(t)[0][v]; ty = self.m.fields(t)[v]
        return Ptr(base.o, base.off + off)

    def step(self, ins, env):
        m = re.match(r'^(%"[^"]*"|%[\w.$-]+) = (.*)$', ins)
        dst, body = (m.group(1), m.group(2)) if m else (None, ins)
        op = body.split(None, 1)[0]
        rest = body[len(op):].strip()
        if op == "ret":
            if rest == "void": return ("ret", None)
            ty, v = rest.split(None, 1)
            if ty[0] == "{": ty, v = rest.rsplit(None, 1)
            return ("ret", self.val(v, ty, env))
        if op == "br":
            if rest.startswith("label"): return ("br", rest.split("%", 1)[1].strip('"'))
            c, a, b = split_top(rest)
            t = self.branch(self.val(c.split(None, 1)[1], "i1", env))
            return ("br", (a if t else b).split("%", 1)[1].strip('"'))
        if op == "switch":
            h, cs = rest.split("[", 1)
            hv, dl = split_top(h)
            ty, v = hv.split(None, 1)
            x = self.val(v, ty, env)
            for cty, cv, lb in re.findall(r"(i\d+) (-?\d+), label %(\"[^\"]*\"|[\w.$-]+)", cs):
                w = int(cty[1:])
                if self.branch(self.cmp("eq", w, x, int(cv) & mask(w))): return ("br", lb.strip('"'))
            return ("br", dl.split("%", 1)[1].strip('"'))
        if op == "unreachable": raise Abort("unreachable")
        if op == "alloca":
            t = split_top(rest)[0]
            env[dst] = self.alloc(self.m.size_align(t)[0]); return
        if op == "load":
            t, p = split_top(rest)[:2]
            t = t.replace("volatile ", "").replace("atomic ", "")
            p = re.sub(r" (acquire|monotonic|seq_cst|unordered)$", "", p)
            n = self.m.size_align(t)[0]
            v = self.get(self.val(p.split(None, 1)[1], "ptr", env), n)
            if t == "i1" or (t == "i8" and not isinstance(v, (int, Ptr)) and z3.is_bool(v) if not isinstance(v, (int, Ptr, Poly)) else False):
                pass
            env[dst] = v; return
        if op == "store":
            a, p = split_top(rest)[:2]
            a = a.replace("volatile ", "").replace("atomic ", "")
            p = re.sub(r" (release|monotonic|seq_cst|unordered)$", "", p)
            ty, v = a.split(None, 1) if not a.startswith(("{", "[", "%")) else a.rsplit(None, 1)
            n = self.m.size_align(ty)[0]
            x = self.val(v, ty, env)
            self.put(self.val(p.split(None, 1)[1], "ptr", env), n, x); return
        if op == "getelementptr":
            r = re.sub(r"^(inbounds |nuw |nusw )*", "", rest)
            env[dst] = self.gep(split_top(r), env); return
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            r = re.sub(r"^((nuw|nsw|exact|disjoint) )*", "", rest)
            ty, ab = r.split(None, 1)
            a, b = split_top(ab)
            w = int(ty[1:])
            env[dst] = self.binop(op, w, self.val(a, ty, env), self.val(b, ty, env)); return
        if op == "icmp":
            pred, ty, ab = rest.split(None, 2)
            a, b = split_top(ab)
            w = 64 if ty == "ptr" else int(ty[1:])
            env[dst] = self.cmp(pred, w, self.val(a, ty, env), self.val(b, ty, env)); return
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze"):
            r = re.sub(r"^((nuw|nsw|nneg) )*", "", rest)
            if op == "freeze":
                ty, v = r.split(None, 1)
                env[dst] = self.val(v, ty, env); return
            src, t2 = r.split(" to ")
            t1, v = src.split(None, 1)
            x = self.val(v, t1, env)
            if op in ("ptrtoint", "inttoptr", "bitcast"):
                env[dst] = x; return
            w1, w2 = int(t1[1:]), int(t2[1:])
            if isinstance(x, Ptr): raise EncodeError("cast of pointer")
            if isinstance(x, int):
                if op == "sext" and x >> (w1 - 1): x |= mask(w2) - mask(w1)
                env[dst] = x & mask(w2); return
            if w1 == 1:
                if op == "sext": raise EncodeError("sext i1")
                env[dst] = self.d.from_bool(x, w2); return
            if op == "trunc" and w2 == 1: env[dst] = self.d.to_bool(x, w1); return
            env[dst] = {"zext": self.d.zext, "sext": self.d.sext, "trunc": self.d.trunc}[op](x, w1, w2); return
        if op == "select":
            c, a, b = split_top(rest)
            cv = self.val(c.split(None, 1)[1], "i1", env)
            ta, va = a.split(None, 1); tb, vb = b.split(None, 1)
            x, y = self.val(va, ta, env), self.val(vb, tb, env)
            if not isinstance(cv, int):
                s = z3.simplify(cv)
                if z3.is_true(s): cv = 1
                elif z3.is_false(s): cv = 0
            if isinstance(cv, int): env[dst] = x if cv else y; return
            if isinstance(x, Ptr) or isinstance(y, Ptr): env[dst] = x if self.branch(cv) else y; return
            if ta == "i1": env[dst] = z3.simplify(z3.If(cv, self.bool(x), self.bool(y))); return
            if isinstance(x, int) and isinstance(y, int) and x == y: env[dst] = x; return
            env[dst] = self.d.ite(cv, int(ta[1:]), x, y); return
        if op in ("call", "tail", "musttail", "notail"):
            b = body[len(op):].strip() if op == "call" else re.sub(r"^\w+ call ", "", body)
            mm = re.search(r'(@"[^"]+"|@[\w.$-]+|%[\w.$-]+)\(', b)
            name = mm.group(1)
            if name[0] == "%": raise EncodeError("indirect call")
            a = b[mm.end():]
            d, i = 1, 0
            while d:
                if a[i] == "(": d += 1
                if a[i] == ")": d -= 1
                i += 1
            args = []
            for x in split_top(a[:i - 1]):
                ty = x.split(None, 1)[0]
                if x.startswith("metadata"): args.append(0); continue
                g = re.search(r"(getelementptr (?:inbounds )?\(.*\))$", x)
                v = g.group(1) if g else (re.search(r'(@"[^"]+"|%"[^"]+")$', x).group(1) if x.endswith('"') else x.split()[-1])
                args.append(self.val(v, ty, env))
            r = self.call(name[1:].strip('"'), args)
            if dst: env[dst] = r
            return
        if op == "extractvalue":
            a = split_top(rest)
            v = env[a[0].split()[-1]]
            env[dst] = v[int(a[1])]; return
        if op == "insertvalue":
            a = split_top(rest)
            agg = a[0].split()[-1]
            v = list(env[agg]) if agg in env else [0] * len(split_top(a[0].strip()[1:a[0].rindex("}")]))
            ty, x = a[1].split(None, 1)
            v[int(a[2])] = self.val(x.strip(), ty, env)
            env[dst] = tuple(v); return
        if op == "fence": return
        raise EncodeError("instruction " + ins[:100])


def _assert_fail(ex, args): raise Abort("assert")
def _nop(ex, args): return 0
def _guard(ex, args): return 1
def _guarded(ex, args): ex.put(args[0], 1, 1)
def _new(ex, args): return ex.alloc(args[0] if isinstance(args[0], int) else 0)


EXTERNS = {"__cxa_guard_acquire": _guard, "__cxa_guard_release": _guarded, "__assert_fail": _assert_fail, "abort": _assert_fail, "_Znam": _new, "_Znwm": _new, "malloc": _new, "_ZdlPv": _nop, "_ZdaPv": _nop, "_ZdlPvm": _nop, "_ZdaPvm": _nop, "free": _nop}


def _intr(ex, name, args):
    if ".memcpy" in name or ".memmove" in name:
        if not isinstance(args[2], int): raise EncodeError("memcpy length")
        ex.copy(args[0], args[1], args[2]); return
    if ".memset" in name:
        if not isinstance(args[1], int) or not isinstance(args[2], int): raise EncodeError("memset")
        for k in range(args[2]): ex.put(Ptr(args[0].o, args[0].off + k), 1, args[1])
        return
    if ".lifetime" in name or ".dbg" in name or ".assume" in name or ".experimental" in name: return
    if ".expect" in name: return args[0]
    w = int(re.search(r"\.i(\d+)", name).group(1))
    if ".ctlz" in name:
        a = args[0]
        if isinstance(a, int): return w - a.bit_length()
        return ex.d.ctlz(a, w)
    if ".uadd.with.overflow" in name:
        r = ex.binop("add", w, args[0], args[1])
        return (r, ex.cmp("ult", w, r, args[0]))
    if ".usub.with.overflow" in name:
        return (ex.binop("sub", w, args[0], args[1]), ex.cmp("ult", w, args[0], args[1]))
    if ".umul.with.overflow" in name and all(isinstance(a, int) for a in args[:2]):
        a, b = (x & ((1 << w) - 1) for x in args[:2])
        return ((a * b) & ((1 << w) - 1), int(a * b >> w != 0))
    raise EncodeError("intrinsic " + name)


PREFIX_EXT = [("llvm.", _intr)]


def paths(make, body, stats, limit=200):
    """make(decisions) -> Exec; body(ex) runs it. Yields (ex, outcome, result)."""
    work = [[]]
    n = 0
    while work:
        if n >= limit: raise EncodeError(f"path limit {limit}")
        ex = make(work.pop())
        try:
            r = body(ex)
            out = "ok"
        except Abort as e:
            r, out = str(e), "abort"
        except Ended:
            work += ex.new
            continue
        work += ex.new
        n += 1
        stats.paths += 1
        stats.runs += 1
        yield ex, out, r
