"""Properties of the prime-field layer (src/linear_gkr/prime_field.cpp), decided on its LLVM IR."""
import random, re
from core import *
from irx import *

SRC = "src/linear_gkr/prime_field.cpp"
U512, U256, FE = "5u512b", "5u256b", "13field_element"
N = "_ZNK11prime_field"
FN = {
    "u512add": N + "5u512bplERKS0_", "u512sub": N + "5u512bmiERKS0_", "u512mul": N + "5u512bmlERKS0_", "u512rem": N + "5u512brmERKNS_5u256bE",
    "u256add": N + "5u256bplERKS0_", "u256mul": N + "5u256bmlERKS0_", "u512ne": N + "5u512bneERKS0_", "u512gt": N + "5u512bgtERKS0_",
    "u512ge": N + "5u512bgeERKS0_", "u512lt": N + "5u512bltERKS0_", "fadd": N + "13field_elementplERKS0_", "fsub": N + "13field_elementmiERKS0_",
    "fmul": N + "13field_elementmlERKS0_", "fmulnm": N + "13field_element11mul_non_modERKS0_", "feq": N + "13field_elementeqERKS0_",
    "fne": N + "13field_elementneERKS0_", "fint": "_ZN11prime_field13field_elementC2Ei", "full": "_ZN11prime_field13field_elementC2Ey",
    "u512of256": "_ZN11prime_field5u512bC2ERKNS_5u256bE", "parse256": "_ZN11prime_field5u256bC2EPKcii", "parse512": "_ZN11prime_field5u512bC2EPKcii",
    "bitlen": "_ZN11prime_field13field_element6bitLenEv", "testbit": "_ZN11prime_field5u256b7testBitEi", "bits": "_ZN11prime_field13field_element10bit_streamEv",
    "gmp": "_ZN11prime_field13field_element12to_gmp_classEv", "string": "_ZN11prime_field13field_element9to_stringEv", "random": "_ZN11prime_field6randomEv",
}


class Field:
    def __init__(self):
        inc = [os.path.join(REPO, "include")]
        self.mod = load_module(os.path.join(REPO, SRC), inc)
        self.image = self.dump()
        self.stats = Stats()
        self.fns = set()
        self._nat = None

    def dump(self):
        """values of the module's globals after init(), by running the module natively"""
        d = tempfile.mkdtemp(dir=scratch())
        names = []
        text = []
        for l in self.mod.text.splitlines():
            m = re.match(r'^(@[\w.$-]+) = (.*)$', l)
            if m and not m.group(1).startswith("@llvm.") and " alias " not in l and "external" not in l and "comdat" not in l and re.search(r"\b(global|constant) ", l):
                n = m.group(1)[1:]
                ty = re.search(r"\b(?:global|constant) (.*)", m.group(2)).group(1)
                t = self.lead_type(ty)
                if t:
                    names.append((n, self.mod.size_align(t)[0]))
                    l = re.sub(r"= (private|internal|dso_local|local_unnamed_addr|unnamed_addr| )+ (global|constant)", r"= \2", l)
            text.append(l)
        ll = os.path.join(d, "m.ll")
        open(ll, "w").write("\n".join(text))
        cc = os.path.join(d, "d.cpp")
        with open(cc, "w") as f:
            f.write("#include <string>\n#include <cstdio>\nnamespace prime_field { void init(std::string, int); }\n")
            for i, (n, s) in enumerate(names):
                f.write(f'extern "C" unsigned char g{i}[] __asm__("{n}");\n')
            f.write('int main() { prime_field::init("%d", 10);\n' % P)
            for i, (n, s) in enumerate(names):
                f.write(f'  printf("{n} "); for (unsigned long k = 0; k < {s}UL; ++k) printf("%02x", g{i}[k]); printf("\\n");\n')
            f.write("}\n")
        r = run(["clang++", "-O0", "-w", ll, cc, "-lgmpxx", "-lgmp", "-o", os.path.join(d, "d")])
        if r.returncode: raise BuildError(r.stderr[-2000:])
        r = run([os.path.join(d, "d")])
        img = {}
        for l in r.stdout.splitlines():
            a, b = l.split()
            img[a] = bytes.fromhex(b)
        return img

    def lead_type(self, s):
        if s.startswith("%"):
            m = re.match(r'%"[^"]*"|%[\w.$-]+', s); t = m.group(0)
        elif s.startswith(("[", "{")):
            d = 0
            for i, c in enumerate(s):
                if c in "[{": d += 1
                if c in "]}": d -= 1
                if d == 0: break
            t = s[:i + 1]
        else:
            t = s.split()[0].rstrip(",")
        try:
            self.mod.size_align(t)
            return t
        except EncodeError:
            return None

    # native --------------------------------------------------------------------------------------
    def native(self, reqs):
        if self._nat is None:
            d = tempfile.mkdtemp(dir=scratch())
            exe = os.path.join(d, "ops")
            r = run(["clang++", "-std=c++11", "-O1", "-w", f'-DREPO_PRIME_FIELD="{os.path.join(REPO, SRC)}"', f"-I{REPO}/include",
                     os.path.join(VERIF, "harness/field_ops.cpp"), "-lgmpxx", "-lgmp", "-o", exe])
            if r.returncode: raise BuildError(r.stderr[-2000:])
            self._nat = exe
        r = run([self._nat], input="".join(q + "\n" for q in reqs), timeout=60)
        return r.stdout.split("\n")[:len(reqs)]

    # symbolic inputs -----------------------------------------------------------------------------
    def limbs(self, ex, tag, n=8, zero_from=8, const=None):
        """a fresh 64*n-bit object of limbs tag0..; limbs from zero_from on are 0"""
        o = ex.alloc(8 * n, tag)
        ls = []
        for i in range(n):
            if i >= zero_from: v = 0
            elif const is not None: v = (const >> (64 * i)) & mask(64)
            elif isinstance(ex.d, BVDom): v = z3.BitVec(f"{tag}{i}", 64)
            else: v = ex.d.var(f"{tag}{i}", 0, mask(64))
            ex.mem[o.o][8 * i] = (8, v)
            ls.append(v)
        return o, ls

    def value(self, ex, ls, w=None):
        """integer value of little-endian 64-bit limbs, as a z3 term of the domain"""
        if isinstance(ex.d, BVDom):
            return z3.simplify(z3.Concat(*[ex.d.lift(l, 64) for l in reversed(ls)])) if len(ls) > 1 else ex.d.lift(ls[0], 64)
        p = Poly({})
        for i, l in enumerate(ls):
            p = ex.d.addp(p, ex.d.mulp(ex.d.lift(l), Poly({(): 1 << (64 * i)})))
        return p

    def read(self, ex, ptr, n=8):
        return [ex.get(Ptr(ptr.o, ptr.off + 8 * i), 8) for i in range(n)]

    def out(self, ex, n=8):
        return ex.alloc(8 * n, "ret")

    def has(self, name):
        return self.mod.resolve(name) in self.mod.fns

    def explore(self, domcls, body, contracts=None, externs=None, limit=300):
        mk = lambda dec: Exec(self.mod, domcls(), dec, self.stats, self.image, contracts, externs)
        for ex, out, r in paths(mk, body, self.stats, limit):
            self.fns |= ex.called
            yield ex, out, r

    def decide(self, ex, bad, timeout=60000):
        """is the negated goal satisfiable on this path? -> (verdict, model)"""
        cons = ex.pre + ex.d.cons + ex.pc + [bad]
        if isinstance(ex.d, LIADom) and timeout > 30000:
            # integer queries of this size vary a lot with the search order: restart with other seeds
            for sd, t in ((0, timeout // 6), (2, timeout // 6), (3, timeout // 6), (1, timeout // 2)):
                r, m = check(cons, self.stats, t, None, sd)
                if r != "unknown": break
        else:
            r, m = check(cons, self.stats, timeout, None)
        if r == "sat" and isinstance(ex.d, LIADom):
            # products are opaque: add the zero-product facts and ask again
            ax = []
            for mon in list(ex.d.zv):
                if len(mon) > 1:
                    ax += [z3.Implies(ex.d.zm((x,)) == 0, ex.d.zm(mon) == 0) for x in set(mon)]
            if ax: r, m = check(cons + ax, self.stats, timeout, None)
        return r, m


def mval(m, names, bv=True):
    out = []
    for n, w in names:
        v = m.eval(z3.BitVec(n, w) if bv else z3.Int(n), model_completion=True)
        out.append(v.as_long())
    return out


def wide(ls):
    return sum(v << (64 * i) for i, v in enumerate(ls))


class Spec:
    """binary or unary operation on wide integers.  dom: 'bv' | 'lia'; ret: 'wide8' 'wide4' 'bool'"""

    def __init__(self, op, dom, ret, na=8, nb=8, za=8, zb=8, pre=None, spec=None, num=None, tags="", contracts=None):
        self.__dict__.update(locals())


FIXED = [(1 << 256) - 1, P - 1, 1, 1 << 64, 1 << 128, 1 << 192, (1 << 128) - 1, ((1 << 128) - 1) << 128, (1 << 64) - 1, ((1 << 64) - 1) << 64, ((1 << 64) - 1) << 128,
         ((1 << 64) - 1) << 192, (1 << 192) - 1, P - 2, (P - 1) // 2, 0xfedcba9876543210fedcba9876543211fedcba9876543212fedcba9876543213 % P, 2, 3]


def boundary_dividends():
    """dividends at which a quotient estimate is most likely to be off: around multiples of p and around word boundaries"""
    top = ((1 << 508) - 1) // P
    rnd = random.Random(11)
    ks = {1, 2, 3, 5, 1 << 64, 1 << 128, (1 << 128) - 1, 1 << 192, P - 1, P - 2, P, P // 2, top, top - 1, top // 3, top // 2}
    xs = {k * P + d for k in ks for d in (-1, 0, 1)}
    for w in range(32, 509, 32): xs |= {(1 << w) - 1, 1 << w, (1 << w) + 1}
    xs |= {(P - 1) ** 2, (P - 1) * (P - 2), (1 << 508) - 1, 0, 1}
    xs |= {rnd.randrange(1 << w) for w in (508, 508, 507, 506, 500, 400, 300, 270, 256, 255, 254)}
    return sorted(x for x in xs if 0 <= x < 1 << 508)


def run_spec(F, sp, timeout=240000, slices=True):
    """-> list of (kind, message, detail) ; kind: violation | undecided"""
    if sp.op == "u512rem":
        # the slices first: a wrong quotient estimate is found at once, where the full query would only time out
        for x in boundary_dividends():
            v = [r for r in run_spec1(F, sp, 20000, {"a": x}) if r[0] == "violation"]
            if v: return v
    res = run_spec1(F, sp, timeout)
    if slices and sp.dom == "lia" and sp.nb and any(k == "undecided" and ("solver" in m) for k, m, _ in res) and not any(k == "violation" for k, _, _ in res):
        # products of two unknowns are opaque in the encoding: decide the slices in which one operand is a boundary constant
        for which in "ba":
            for c in FIXED:
                if "CANON" in sp.tags and c >= P: continue
                if sp.ret == "wide4" and False: continue
                r = run_spec1(F, sp, 20000, {which: c})
                v = [x for x in r if x[0] == "violation"]
                if v: return v
    return res


def run_spec1(F, sp, timeout=240000, fix=None):
    name = FN[sp.op]
    fix = fix or {}
    if not F.has(name):
        return [("undecided", f"{sp.op}: function {name} not found in the module", None)]
    res = []
    bv = sp.dom == "bv"

    def body(ex):
        a, al = F.limbs(ex, "a", sp.na, sp.za, fix.get("a"))
        b, bl = (F.limbs(ex, "b", sp.nb, sp.zb, fix.get("b")) if sp.nb else (None, []))
        ex.al, ex.bl = al, bl
        if sp.op == "u512rem":
            args = [a, ex.glob("_ZN11prime_field3modE")]
        else:
            args = [a] + ([b] if b else [])
        if sp.pre: ex.pre += sp.pre(F, ex, al, bl)
        if sp.ret == "bool":
            return ex.call(name, args)
        o = F.out(ex, int(sp.ret[4:]))
        ex.call(name, [o] + args)
        return F.read(ex, o, int(sp.ret[4:]))
    npaths = 0
    try:
        for ex, out, r in F.explore(BVDom if bv else LIADom, body, sp.contracts(F) if sp.contracts else None):
            npaths += 1
            if out == "abort":
                bad, why = z3.BoolVal(True), "assertion failure"
            else:
                bad = sp.spec(F, ex, ex.al, ex.bl, r)
                why = "wrong result"
                if bad is False: continue
            v, m = F.decide(ex, bad, timeout)
            if v == "unsat": continue
            if v == "unknown":
                res.append(("undecided", f"{sp.op}: path {npaths}: solver unknown", None))
                continue
            A = fix.get("a", wide(mval(m, [(f"a{i}", 64) for i in range(min(sp.na, sp.za))], bv)))
            B = fix.get("b", wide(mval(m, [(f"b{i}", 64) for i in range(min(sp.nb, sp.zb))], bv)) if sp.nb else 0)
            got = F.native([f"{sp.op} {A:x} {B:x}"])[0]
            want = sp.num(A, B)
            g = int(got, 16) if got and sp.ret != "bool" else int(got) if got else None
            if g != want:
                res.append(("violation", f"{sp.op}: {why} for a={A:#x} b={B:#x}", {"request": f"{sp.op} {A:x} {B:x}", "got": got, "want": f"{want:x}"}))
                return res
            res.append(("undecided", f"{sp.op}: solver counterexample not reproduced natively (a={A:#x} b={B:#x})", None))
    except EncodeError as e:
        res.append(("undecided", f"{sp.op}: not encodable: {e}", None))
    if npaths == 0:
        res.append(("undecided", f"{sp.op}: no feasible path (vacuous)", None))
    return res


# ---- helpers for specifications ------------------------------------------------------------------
def below(bound):
    def f(F, ex, al, bl):
        out = []
        for l in (al, bl):
            if l:
                v = F.value(ex, l)
                out.append(z3.ULT(v, z3.BitVecVal(bound, v.size())) if isinstance(ex.d, BVDom) else ex.d.z(v) < bound)
        return out
    return f


def ext(v, w): return z3.ZeroExt(w - v.size(), v) if v.size() < w else v


def spec_bv(f):
    """f(A, B, R) on 520-bit vectors gives the goal"""
    def g(F, ex, al, bl, r):
        A = ext(F.value(ex, al), 520)
        B = ext(F.value(ex, bl), 520) if bl else None
        R = ext(F.value(ex, r), 520)
        return z3.Not(f(A, B, R))
    return g


def spec_bool(f):
    def g(F, ex, al, bl, r):
        A, B = F.value(ex, al), F.value(ex, bl)
        return z3.Not(ex.bool(r) == f(A, B))
    return g


def BVc(x): return z3.BitVecVal(x, 520)


def exact_lia(w, f):
    """result == f(a,b) exactly (no reduction)"""
    def g(F, ex, al, bl, r):
        A, B, R = F.value(ex, al), F.value(ex, bl) if bl else None, F.value(ex, r)
        d = ex.d.addp(R, f(ex.d, A, B), -1)
        if ex.d.const(d) == 0: return False
        return ex.d.z(d) != 0
    return g


def mod_lia(w, f):
    """result == f(a,b) mod 2^w"""
    def g(F, ex, al, bl, r):
        A, B, R = F.value(ex, al), F.value(ex, bl), F.value(ex, r)
        S = ex.d.lift(ex.d.divmod(f(ex.d, A, B), w)[1])
        d = ex.d.addp(R, S, -1)
        return ex.d.z(d) != 0
    return g


def residue(ex, X):
    """fresh s = X mod p"""
    n = next(ex.d.n)
    s = ex.d.var(f"s!{n}", 0, P - 1)
    lo, hi = ex.d.bounds(X)
    k = ex.d.var(f"k!{n}", lo // P, hi // P)
    ex.d.cons.append(ex.d.z(X) == P * ex.d.z(k) + ex.d.z(s))
    return s


def rem_spec(F, ex, al, bl, r):
    X, R = F.value(ex, al), F.value(ex, r)
    s = residue(ex, X)
    return ex.d.z(R) != ex.d.z(s)


def split(ex, V, n):
    """n 64-bit limbs of the integer polynomial V (0 <= V < 2^(64n)), tied to it by one equation"""
    c = ex.d.const(V)
    if c is not None: return [(c >> (64 * i)) & mask(64) for i in range(n)]
    lo, hi = ex.d.bounds(V)
    key = ("split", V.k(), n)
    if key not in ex.d.memo:
        k = next(ex.d.n)
        ls, tot = [], Poly({})
        for i in range(n):
            if hi >> (64 * i) == 0: ls.append(0); continue
            v = ex.d.var(f"l!{k}.{i}", 0, min(mask(64), hi >> (64 * i)))
            ls.append(v)
            tot = ex.d.addp(tot, ex.d.mulp(v, Poly({(): 1 << (64 * i)})))
        ex.d.cons.append(ex.d.z(tot) == ex.d.z(V))
        ex.d.memo[("b", tot.k())] = (max(lo, 0), hi)
        ex.d.memo[key] = ls
    return ex.d.memo[key]


def contracts(F, ops, product=None):
    """replace the wide operations by their contracts (each decided separately from the same source)"""
    out = {}

    def whole(ex, p, n=8):
        return F.value(ex, F.read(ex, p, n))

    def store(ex, p, V, n=8):
        for i, l in enumerate(split(ex, ex.d.lift(V), n)): ex.put(Ptr(p.o, p.off + 8 * i), 8, l)

    def arith(op, n):
        def h(ex, args):
            ret, a, b = args
            A, B = whole(ex, a, n), whole(ex, b, n)
            if op == "mul":
                if n == 8 and (ex.d.bounds(A)[1] >= M256 or ex.d.bounds(B)[1] >= M256): raise EncodeError("product of operands of more than 256 bits")
                if ex.d.const(A) is None and ex.d.const(B) is None:
                    if product is None: raise EncodeError("product of two unknowns")
                    V = product(ex, A, B)
                else: V = ex.d.mulp(A, B)
            else: V = ex.d.addp(A, B, -1 if op == "sub" else 1)
            V = ex.d.lift(ex.d.wrap(V, 64 * n))
            # the left operand may alias the result
            store(ex, ret, V, n)
        return h

    def compare(pred):
        def h(ex, args):
            return ex.cmp(pred, 512, ex.d.norm(whole(ex, args[0])), ex.d.norm(whole(ex, args[1])))
        return h
    table = {"u512add": arith("add", 8), "u512sub": arith("sub", 8), "u512mul": arith("mul", 8), "u256add": arith("add", 4), "u256mul": arith("mul", 4),
             "u512ge": compare("uge"), "u512gt": compare("ugt"), "u512lt": compare("ult"), "u512ne": compare("ne")}
    def rem(ex, args):
        ret, a, m = args
        X, M = whole(ex, a, 8), ex.d.const(whole(ex, m, 4))
        if M != P: raise EncodeError("remainder by something else than the modulus")
        lo, hi = ex.d.bounds(X)
        if lo < 0 or hi >= 1 << 508: raise EncodeError("remainder of a value that may exceed 2^508")
        c = ex.d.const(X)
        store(ex, ret, ex.d.lift(c % P) if c is not None else X if hi < P else residue(ex, X))
    table["u512rem"] = rem
    for o in ops: out[F.mod.resolve(FN[o])] = table[o]
    return out


ALLC = ("u512add", "u512sub", "u512mul", "u256add", "u256mul", "u512ge", "u512gt", "u512lt", "u512ne")


def rem_contracts(F): return contracts(F, ALLC)


def fmul_contracts(F):
    def product(ex, A, B):
        ex.X = ex.d.var("X", 0, (P - 1) * (P - 1))
        return ex.X
    return contracts(F, ALLC + ("u512rem",), product)


def fmul_spec(F, ex, al, bl, r):
    if not hasattr(ex, "X"): raise EncodeError("no product")
    s = residue(ex, ex.X)
    return ex.d.z(F.value(ex, r)) != ex.d.z(s)


M512, M256 = 1 << 512, 1 << 256
WIDE = [
    Spec("u512add", "lia", "wide8", spec=mod_lia(512, lambda d, A, B: d.addp(A, B)), num=lambda a, b: (a + b) % M512),
    Spec("u512sub", "lia", "wide8", spec=mod_lia(512, lambda d, A, B: d.addp(A, B, -1)), num=lambda a, b: (a - b) % M512),
    Spec("u256add", "bv", "wide4", 4, 4, spec=spec_bv(lambda A, B, R: R == (A + B) & BVc(M256 - 1)), num=lambda a, b: (a + b) % M256),
    Spec("u256mul", "lia", "wide4", 4, 4, spec=mod_lia(256, lambda d, A, B: d.mulp(A, B)), num=lambda a, b: a * b % M256),
    Spec("u512mul", "lia", "wide8", za=4, zb=4, spec=exact_lia(512, lambda d, A, B: d.mulp(A, B)), num=lambda a, b: a * b),
]
REM = [Spec("u512rem", "lia", "wide8", nb=0, pre=below(1 << 508), spec=rem_spec, num=lambda a, b: a % P, contracts=rem_contracts)]
CANON = below(P)


def canon_lia(f, lo=0):
    """result is the canonical residue of f(a,b)"""
    def g(F, ex, al, bl, r):
        X = f(ex.d, F.value(ex, al), F.value(ex, bl))
        s = residue(ex, X)
        return ex.d.z(F.value(ex, r)) != ex.d.z(s)
    return g


FADD = [Spec("fadd", "lia", "wide8", za=4, zb=4, pre=CANON, tags="CANON", spec=canon_lia(lambda d, A, B: d.addp(A, B)), num=lambda a, b: (a + b) % P),
        Spec("fsub", "lia", "wide8", za=4, zb=4, pre=CANON, tags="CANON", spec=canon_lia(lambda d, A, B: d.addp(A, B, -1)), num=lambda a, b: (a - b) % P)]
FMUL = [Spec("fmulnm", "lia", "wide8", za=4, zb=4, pre=CANON, tags="CANON", spec=exact_lia(512, lambda d, A, B: d.mulp(A, B)), num=lambda a, b: a * b),
        Spec("fmul", "lia", "wide8", za=4, zb=4, pre=CANON, tags="CANON", spec=fmul_spec, num=lambda a, b: a * b % P, contracts=fmul_contracts)]


def lia_bool(f):
    def g(F, ex, al, bl, r):
        A, B = ex.d.z(F.value(ex, al)), ex.d.z(F.value(ex, bl))
        return z3.Not(ex.bool(r) == f(A, B))
    return g


CMP = [Spec("u512ne", "bv", "bool", spec=spec_bool(lambda a, b: a != b), num=lambda a, b: int(a != b)),
       Spec("u512gt", "bv", "bool", spec=spec_bool(lambda a, b: z3.UGT(a, b)), num=lambda a, b: int(a > b)),
       Spec("u512ge", "bv", "bool", spec=spec_bool(lambda a, b: z3.UGE(a, b)), num=lambda a, b: int(a >= b)),
       Spec("u512lt", "bv", "bool", spec=spec_bool(lambda a, b: z3.ULT(a, b)), num=lambda a, b: int(a < b)),
       Spec("feq", "bv", "bool", za=4, zb=4, pre=CANON, tags="CANON", spec=spec_bool(lambda a, b: a == b), num=lambda a, b: int(a == b)),
       Spec("fne", "bv", "bool", za=4, zb=4, pre=CANON, tags="CANON", spec=spec_bool(lambda a, b: a != b), num=lambda a, b: int(a != b))]


# ---- conversions ---------------------------------------------------------------------------------
def simple(F, op, domcls, setup, goal, replay, contracts=None, externs=None, timeout=60000, limit=600):
    """setup(ex) -> result; goal(ex, result) -> negated goal (z3) or False; replay(model) -> (request, got==want?, want)"""
    name = FN[op]
    if not F.has(name): return [("undecided", f"{op}: function {name} not found", None)]
    res, n = [], 0
    try:
        for ex, out, r in F.explore(domcls, lambda ex: setup(ex, name), contracts, externs, limit):
            n += 1
            bad = z3.BoolVal(True) if out == "abort" else goal(ex, r)
            if bad is False: continue
            v, m = F.decide(ex, bad, timeout)
            if v == "unsat": continue
            if v == "unknown":
                res.append(("undecided", f"{op}: solver unknown", None)); continue
            req, conv, want = replay(m)
            raw = F.native([req])[0]
            try: got = conv(raw)
            except ValueError: got = None
            if got != want:
                res.append(("violation", f"{op}: wrong result for '{req}'", {"request": req, "got": raw, "want": str(want)}))
                return res
            res.append(("undecided", f"{op}: counterexample not reproduced ({req})", None))
    except EncodeError as e:
        res.append(("undecided", f"{op}: not encodable: {e}", None))
    if n == 0: res.append(("undecided", f"{op}: vacuous", None))
    return res


def hexv(s): return int(s, 16)


def limbs_model(m, n, tag="a", bv=True): return wide(mval(m, [(f"{tag}{i}", 64) for i in range(n)], bv))


def conv_int(F):
    def setup(ex, name):
        ex.x = z3.BitVec("x", 32); ex.pre.append(ex.x >= 0)
        o = F.out(ex); ex.call(name, [o, ex.x]); return F.read(ex, o)
    return simple(F, "fint", BVDom, setup, lambda ex, r: F.value(ex, r) != z3.ZeroExt(480, ex.x),
                  lambda m: (f"fint {mval(m, [('x', 32)])[0]}", hexv, mval(m, [('x', 32)])[0]))


def conv_ull(F):
    def setup(ex, name):
        ex.x = z3.BitVec("x", 64)
        o = F.out(ex); ex.call(name, [o, ex.x]); return F.read(ex, o)
    return simple(F, "full", BVDom, setup, lambda ex, r: F.value(ex, r) != z3.ZeroExt(448, ex.x),
                  lambda m: (f"full {mval(m, [('x', 64)])[0]}", hexv, mval(m, [('x', 64)])[0]))


def conv_widen(F):
    def setup(ex, name):
        a, ex.al = F.limbs(ex, "a", 4)
        o = F.out(ex); ex.call(name, [o, a]); return F.read(ex, o)
    return simple(F, "u512of256", BVDom, setup, lambda ex, r: F.value(ex, r) != z3.ZeroExt(256, F.value(ex, ex.al)),
                  lambda m: (f"u512of256 {limbs_model(m, 4):x}", hexv, limbs_model(m, 4)))


def conv_parse(F, op, n, k):
    """decimal strings of n digits -> the number mod 2^(64k)"""
    def setup(ex, name):
        s = ex.alloc(n + 1, "str")
        ex.ds = []
        for i in range(n):
            v = ex.d.var(f"d{i}", 48, 57)
            ex.ds.append(v); ex.mem[s.o][i] = (1, v)
        ex.mem[s.o][n] = (1, 0)
        o = F.out(ex, k)
        ex.call(name, [o, s, n, 10])
        return F.read(ex, o, k)

    def goal(ex, r):
        X = Poly({})
        for i, v in enumerate(ex.ds):
            X = ex.d.addp(X, ex.d.mulp(ex.d.addp(v, Poly({(): 48}), -1), Poly({(): 10 ** (n - 1 - i)})))
        X = ex.d.lift(ex.d.wrap(X, 64 * k))
        d = ex.d.addp(F.value(ex, r), X, -1)
        if ex.d.const(d) == 0: return False
        return ex.d.z(d) != 0

    def replay(m):
        s = "".join(chr(x) for x in mval(m, [(f"d{i}", 0) for i in range(n)], False))
        return f"{op} {s}", hexv, int(s) % (1 << (64 * k))
    ops = [o for o in ALLC if F.has(FN[o])]
    r = simple(F, op, LIADom, setup, goal, replay, contracts(F, ops))
    return [(a, f"{b} ({n} digits)", c) for a, b, c in r]


def conv_string(F):
    def setup(ex, name):
        a, ex.al = F.limbs(ex, "a", 8)
        p = ex.call(name, [a])
        return [ex.get(Ptr(p.o, p.off + i), 1) for i in range(512)]

    def goal(ex, r):
        v = F.value(ex, ex.al)
        return z3.Or([ex.d.lift(r[i], 8) != 48 + z3.ZeroExt(7, z3.Extract(i, i, v)) for i in range(512)])
    return simple(F, "string", BVDom, setup, goal, lambda m: (f"string {limbs_model(m, 8):x}", str, format(limbs_model(m, 8), "0512b")[::-1]))


def conv_gmp(F):
    def setup(ex, name):
        a, ex.al = F.limbs(ex, "a", 8, 4)
        ex.pre += CANON(F, ex, ex.al, [])

        def setstr(e, args):
            n, p = 0, args[1]
            while n < 1000:
                b = e.get(Ptr(p.o, p.off + n), 1)
                if isinstance(b, int) and b == 0: break
                e.rec.append(b); n += 1
            e.base = args[2]
            return 0
        ex.ext["__gmpz_init_set_str"] = setstr
        ex.ext["__gmpz_set_str"] = setstr
        ex.ext["__gmpz_init"] = lambda e, a: 0
        ex.call(name, [ex.alloc(16), a])
        return ex.rec

    def goal(ex, r):
        v = F.value(ex, ex.al)
        if ex.base == 2 and len(r) >= 1:
            w = len(r)
            terms = []
            for i, b in enumerate(r):
                k = w - 1 - i
                bit = z3.ZeroExt(7, z3.Extract(k, k, v)) if k < 512 else z3.BitVecVal(0, 8)
                terms.append(ex.d.lift(b, 8) != 48 + bit)
            if w < 512: terms.append(z3.LShR(v, w) != 0)
            return z3.Or(terms)
        raise EncodeError("export not through a base-2 string")
    return simple(F, "gmp", BVDom, setup, goal, lambda m: (f"gmp {limbs_model(m, 4):x}", hexv, limbs_model(m, 4)))


def conv_bits(F):
    def setup(ex, name):
        a, ex.al = F.limbs(ex, "a", 8, 4)
        ex.pre += CANON(F, ex, ex.al, [])
        for n in list(F.mod.fns) + [x for x in re.findall(r"@(_ZNSt6vectorIbSaIbEE[\w]+)", F.mod.text)]:
            if n.startswith("_ZNSt6vectorIbSaIbEE"):
                ex.ext[n] = (lambda e, args: e.rec.append(args[1]) or 0) if "push_back" in n else (lambda e, args: 0)
        ex.call(name, [ex.alloc(64), a])
        return ex.rec

    def goal(ex, r):
        v = F.value(ex, ex.al)
        if len(r) != 256: return z3.BoolVal(True)
        return z3.Or([ex.bool(b) != (z3.Extract(i, i, v) == 1) if (isinstance(b, int) or z3.is_bool(b)) else (ex.d.lift(b, 8) != z3.ZeroExt(7, z3.Extract(i, i, v)))
                      for i, b in enumerate(r)])
    return simple(F, "bits", BVDom, setup, goal, lambda m: (f"bits {limbs_model(m, 4):x}", str, format(limbs_model(m, 4), "0256b")[::-1]))


def conv_bitlen(F):
    def setup(ex, name):
        a, ex.al = F.limbs(ex, "a", 8)
        ex.pre.append(F.value(ex, ex.al) != 0)
        return ex.call(name, [a])

    def goal(ex, r):
        v = ext(F.value(ex, ex.al), 520)
        L = ex.d.lift(r, 32)
        l = z3.ZeroExt(488, L)
        return z3.Not(z3.And(z3.ULE(L, 512), L != 0, z3.LShR(v, l - 1) == 1))
    return simple(F, "bitlen", BVDom, setup, goal, lambda m: (f"bitlen {limbs_model(m, 8):x}", int, limbs_model(m, 8).bit_length()))


def conv_testbit(F):
    out = []
    for i in list(range(256)):
        def setup(ex, name, i=i):
            a, ex.al = F.limbs(ex, "a", 4)
            return ex.call(name, [a, i])
        out += simple(F, "testbit", BVDom, setup, lambda ex, r, i=i: ex.d.lift(r, 32) != z3.ZeroExt(31, z3.Extract(i, i, F.value(ex, ex.al))),
                      lambda m, i=i: (f"testbit {limbs_model(m, 4):x} {i}", int, (limbs_model(m, 4) >> i) & 1))
        if any(k == "violation" for k, _, _ in out): break
    return out


# ---- challenges ----------------------------------------------------------------------------------
def random_draws(F, tag=""):
    """run prime_field::random() with every rand() result a fresh symbol in [0, 2^31)"""
    def setup(ex, name):
        ex.draws = []

        def rnd(e, args):
            v = e.d.var(f"rand{tag}{len(e.draws)}", 0, (1 << 31) - 1)
            e.draws.append(v)
            return v
        ex.ext["rand"] = rnd
        ex.ext["random"] = rnd
        o = F.out(ex)
        ex.call(name, [o])
        return F.read(ex, o)
    return setup


def random_canon(F):
    def goal(ex, r):
        R = F.value(ex, r)
        return ex.d.z(R) >= P

    def replay(m):
        ds = [m.eval(z3.Int(f"rand{i}"), model_completion=True).as_long() for i in range(16)]
        return "random " + " ".join(map(str, ds)), lambda s: int(s.split()[0], 16) < P, True
    return simple(F, "random", LIADom, random_draws(F), goal, replay, contracts(F, ALLC + ("u512rem",)))


def random_entropy(F, bits=93):
    """at least `bits` bits of the rand() results a challenge consumes can each change it"""
    name = FN["random"]
    res = []
    if not F.has(name): return [("undecided", "random: not found", None)]
    C = contracts(F, ALLC + ("u512rem",))

    def two(fst, snd):
        """two successive challenges; draw i of the first is fst(ex, i), of the second snd(ex, i, first draws)"""
        def body(ex):
            outs = []
            for fn in (fst, snd):
                ex.draws = []

                def rnd(e, args, fn=fn):
                    v = fn(e, len(e.draws))
                    e.draws.append(v)
                    return v
                ex.ext["rand"] = ex.ext["random"] = rnd
                o = F.out(ex)
                ex.call(name, [o])
                outs.append((ex.draws, F.read(ex, o)))
            return outs
        return F.explore(LIADom, body, C)

    def var(e, i, tag="rand"): return e.d.var(f"{tag}{i}", 0, (1 << 31) - 1)
    nat = lambda *ds: [o.split() for o in F.native(["random " + " ".join(map(str, d)) for d in ds])]
    try:
        n1 = n2 = None
        for ex, out, r in two(lambda e, i: var(e, i), lambda e, i: var(e, i, "next")):
            if out == "abort": continue
            n1 = len(r[0][0]) if n1 is None else min(n1, len(r[0][0]))
            n2 = len(r[1][0]) if n2 is None else min(n2, len(r[1][0]))
        if n1 is None: return [("undecided", "random: vacuous", None)]
        for n, w in ((n1, "first"), (n2, "second")):
            if 31 * n < bits:
                o = nat([7] * 16, [7] * 16)[0 if w == "first" else 1]
                if int(o[1]) * 31 < bits:
                    return [("violation", f"random: the {w} challenge consumes only {n} rand() results", {"request": "random, twice", "native_draws": o[1]})]
                return [("undecided", "random: number of draws not reproduced", None)]
        # bits with a concrete witness in the real code
        nd = min(n1, 16)
        live = set()
        for base in ([5] * 16, [0x7ffffffe - 77 * i for i in range(16)], [0x2aaaaaaa ^ i * 0x01234567 & 0x7fffffff for i in range(16)]):
            todo = [(k, b) for k in range(nd) for b in range(31) if (k, b) not in live]
            if not todo: break
            vs = nat(base, *[base[:k] + [base[k] ^ (1 << b)] + base[k + 1:] for k, b in todo])
            live |= {kb for kb, o in zip(todo, vs[1:]) if o[0] != vs[0][0]}
        # the solver's side: each draw as a whole, and every bit without a witness
        dead, unk = [], []
        need = [(k, None) for k in range(nd)] if len(live) >= bits else []
        for k, b in need + [(k, b) for k in range(nd) for b in range(31) if (k, b) not in live]:
            if b is not None and len(live) >= bits: continue

            def fst(e, i):
                if i != k: return var(e, i)
                if b is None: return var(e, i)
                lo = e.d.var("lowbits", 0, (1 << b) - 1) if b else 0
                hi = e.d.var("highbits", 0, (1 << (30 - b)) - 1) if b < 30 else 0
                return e.d.addp(e.d.mulp(e.d.lift(hi), Poly({(): 1 << (b + 1)})), e.d.lift(lo))

            def snd(e, i):
                if i != k: return var(e, i)
                return var(e, i, "other") if b is None else e.d.addp(fst(e, i), Poly({(): 1 << b}))
            got = "unsat"
            for ex, out, r in two(fst, snd):
                if out == "abort": continue
                v, m = F.decide(ex, ex.d.z(F.value(ex, r[0][1])) != ex.d.z(F.value(ex, r[1][1])), 30000)
                if v == "sat": got = "sat"; break
                if v == "unknown": got = "unknown"
            if got == "unsat": dead.append((k, b))
            elif b is not None: unk.append((k, b))
        if len(live) >= bits:
            return res
        if len([x for x in dead if x[1] is not None]) > 31 * nd - bits:
            return [("violation", f"random: only {len(live)} bits of the rand() results of a challenge can change it", {"bits_without_influence": dead[:40], "bits_with_native_witness": len(live)})]
        res.append(("undecided", f"random: {len(live)} bits influence the challenge, {len(unk)} undecided", None))
    except EncodeError as e:
        res.append(("undecided", f"random: not encodable: {e}", None))
    return res


def consts(F):
    """the modulus and the derived constants after init()"""
    o = F.native(["consts"])[0].split()
    want = [P, P, (M512 - P)]
    got = [int(x, 16) for x in o]
    return [] if got == want else [("violation", "init: wrong modulus constants", {"got": o})]
