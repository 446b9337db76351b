"""Z07: the Fiat-Shamir transcript.  include/linear_gkr/transcript.h is executed symbolically at the level of LLVM IR: message
bytes are bit-vectors, std::vector is replaced by its specification, the compression function is uninterpreted."""
import os, random
import z3
from core import *
from irx import *
S = os.path.join(VERIF, "engine/shim")
RND, FILE_ = "run_random", "run_file"


class Transcript:
    def __init__(self):
        self._mod = self._nat = None

    def module(self):
        if self._mod is None:
            self._mod = load_module(os.path.join(VERIF, "harness/transcript_h.cpp"), [S + "/transinc", os.path.join(REPO, "include")], ["-fno-threadsafe-statics"])
        return self._mod

    def native(self):
        if self._nat is None:
            d = tempfile.mkdtemp(dir=scratch())
            i = os.path.join(d, "inc")
            os.makedirs(i + "/infrastructure")
            open(i + "/bn.h", "w").write(open(S + "/transinc/bn.h").read())
            exe = os.path.join(d, "t")
            r = run(["clang++", "-std=c++11", "-O1", "-w", "-maes", "-msse4.1", "-DTRANS_NATIVE", f"-I{i}", f"-I{REPO}/include", os.path.join(VERIF, "harness/transcript_h.cpp"),
                     os.path.join(REPO, "src/linear_gkr/prime_field.cpp"), "-lgmpxx", "-lgmp", "-o", exe])
            if r.returncode: raise BuildError(r.stderr[-2000:])
            self._nat = exe
        return self._nat

    def run(self, kinds, by):
        r = run([self.native(), "random", kinds, "".join(f"{b:02x}" for b in by)], timeout=60)
        return r.stdout.split()

    def file(self, kinds, by):
        d = tempfile.mkdtemp(dir=scratch())
        f = os.path.join(d, "p")
        r = run([self.native(), "file", kinds, "".join(f"{b:02x}" for b in by), f], timeout=60)
        return int(r.stdout or -1), open(f, "rb").read() if os.path.exists(f) else b""

    def execute(self, fn, kinds, st):
        """one path per control flow; returns [(ex, bytes, hashes, challenges, written, result)]"""
        mod = self.module()
        n = len(kinds.replace("d", "").replace("D", ""))
        by = [z3.BitVec(f"m{k}", 8) for k in range(32 * n)]
        out = []

        def body(ex):
            ex.hash, ex.red, ex.wr = [], [], []
            kp, bp, rp = ex.alloc(len(kinds) + 1), ex.alloc(32 * n), ex.alloc(4096)
            for i, c in enumerate(kinds + "\0"): ex.mem[kp.o][i] = (1, ord(c))
            for i, b in enumerate(by): ex.mem[bp.o][i] = (1, b)
            r = ex.call(fn, [kp, bp, rp])
            ex.res = [ex.get(Ptr(rp.o, 32 * k), 32) for k in range(r)] if fn == RND else []
            return r

        def hh(ex, a):
            x = word(ex.get(a[0], 64), 512)
            j = len(ex.hash)
            h = z3.BitVec(f"h{j}", 256)
            ex.hash.append((x, h))
            for k in (0, 1): ex.put(Ptr(a[1].o, a[1].off + 16 * k), 16, z3.Extract(128 * k + 127, 128 * k, h))

        def rem(ex, a):       # sret result, this, modulus
            x = word(ex.get(a[1], 64), 512)
            r = z3.BitVec(f"r{len(ex.red)}", 256)
            ex.red.append((x, r))
            ex.put(Ptr(a[0].o, a[0].off), 32, r)
            ex.put(Ptr(a[0].o, a[0].off + 32), 32, 0)

        def fwrite(ex, a):
            k = a[1] * a[2]
            ex.wr.append(word(ex.get(a[0], k), 8 * k) if k else None)
            ex.wrn = getattr(ex, "wrn", 0) + k
            return a[2]
        zero = lambda ex, a: [ex.put(Ptr(a[0].o, a[0].off + 8 * k), 8, 0) for k in range(8)] and None

        def from_int(ex, a):
            ex.put(Ptr(a[0].o, a[0].off), 8, a[1]); [ex.put(Ptr(a[0].o, a[0].off + 8 * k), 8, 0) for k in range(1, 4)]
        ext = {"_Z8my_hhashPKvPv": hh, "_ZNK11prime_field5u512brmERKS0_": rem, "_ZN11prime_field13field_elementC2Ev": zero, "_ZN11prime_field13field_elementC1Ev": zero,
               "fopen": lambda ex, a: ex.alloc(8, "FILE"), "fclose": lambda ex, a: 0, "fwrite": fwrite, "_ZNK11prime_field5u512brmERKNS_5u256bE": rem}
        ext["_ZN11prime_field4u256C2ERKi"] = from_int
        for ex, oc, r in paths(lambda dec: self.exec(mod, dec, st, ext), body, st, 20):
            out.append((ex, by, oc, r))
        return out

    def exec(self, mod, dec, st, ext):
        ex = Exec(mod, BVDom(), dec, st, {}, {}, ext)
        ex.STEPS = 40000000
        return ex


def word(v, w):
    return z3.BitVecVal(v, w) if isinstance(v, int) else v


def prime(ts, vs):
    sub = [(v, z3.BitVec(v.decl().name() + "'", v.size())) for v in vs]
    return [z3.substitute(t, *sub) for t in ts], [a != b for a, b in sub]


def concrete(m, by, suf=""):
    return [m.eval(z3.BitVec(b.decl().name() + suf, 8), True).as_long() for b in by]


def challenge(T, kinds, timeout=60000):
    """a challenge is the residue of a digest whose chain of blocks fixes every bit of every message before it"""
    st, vio, und = Stats(), [], []
    per, nd = [], 0
    for i, c in enumerate(kinds):
        if c in "dD": per.append((nd, len(kinds[:i].replace("d", "").replace("D", "")))); nd += 3 if c == "D" else 1
    for ex, by, oc, r in T.execute(RND, kinds, st):
        what = f"transcript {kinds}: "
        if oc != "ok" or r != nd:
            und.append(what + f"{oc} {r}")
            continue
        names = {h.decl().name(): j for j, (_, h) in enumerate(ex.hash)}
        rn = {x.decl().name(): j for j, (_, x) in enumerate(ex.red)}

        def vars_of(t):
            seen, out, w = set(), set(), [t]
            while w:
                a = w.pop()
                if a.get_id() in seen: continue
                seen.add(a.get_id())
                if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(a.decl().name())
                w += a.children()
            return out

        def used(k):
            """hash calls and residues challenge k is computed from, closed under the chain"""
            H, R, w = set(), set(), list(vars_of(word(ex.res[k], 256)))
            M = set()
            while w:
                a = w.pop()
                if a in names and names[a] not in H: H.add(names[a]); w += vars_of(ex.hash[names[a]][0])
                elif a in rn and rn[a] not in R: R.add(rn[a]); w += vars_of(ex.red[rn[a]][0])
                elif a[0] == "m": M.add(a)
            return sorted(H), sorted(R)
        for first, nm in per:
            cnt = 3 if (kinds.replace("D", "D")[[i for i, c in enumerate(kinds) if c in "dD"][per.index((first, nm))]] == "D") else 1
            for k in range(first, first + cnt):
                bad = probe = None
                H, R = used(k)
                blocks = [ex.hash[j][0] for j in H]
                mv, rv = by[:32 * nm], [z3.BitVec(f"r{j}", 256) for j in range(len(ex.red)) if j < first and any(f"r{j}" == x.decl().name() for _, x in ex.red)]
                live = [b for i, b in enumerate(by[:32 * nm]) if not (kinds.replace("d", "").replace("D", "")[i // 32] == "c" and i % 32 >= 24)]
                # the blocks fix every message byte (and every challenge before)
                p2, diff = prime(blocks, live)
                q, m = check([a == b for a, b in zip(blocks, p2)] + [z3.Or(*diff)], st, timeout, None)
                if q == "sat": bad, probe = "two different messages give the same blocks", (concrete(m, by), concrete(m, by, "'"))
                elif q == "unknown": und.append(what + "solver unknown")
                if not bad:
                    hs = [ex.hash[j][1] for j in H]
                    # every digest is carried into a later block or into the challenge
                    sink = blocks + [ex.red[j][0] for j in R]
                    p2, diff = prime(sink, hs)
                    q, m = check([a == b for a, b in zip(sink, p2)] + [z3.Or(*diff)], st, timeout, None)
                    if q == "sat": bad = "a digest is not carried on entirely"
                    elif q == "unknown": und.append(what + "solver unknown (digest)")
                if not bad:
                    p2, diff = prime([word(ex.res[k], 256)], [ex.red[j][1] for j in R if f"r{j}" in vars_of(word(ex.res[k], 256))])
                    q, m = check([word(ex.res[k], 256) == p2[0]] + [z3.Or(*diff)], st, timeout, None) if diff else ("sat", None)
                    if q == "sat": bad = "the challenge is not the residue"
                if not bad and k > first:
                    # challenges of one draw come from different digests
                    a, b = ex.red[max(R)][0], [ex.red[max(used(j)[1])][0] for j in range(first, k)]
                    for x in b:
                        q, _ = check([a != x], st, timeout, None)
                        if q == "unsat": bad = "two challenges of one draw are the same digest's"
                if not bad: continue
                ok = replay(T, kinds, by, live, k, probe)
                if ok: vio.append((what + f"challenge {k}: {bad}", {"kinds": kinds, **ok}))
                else: und.append(what + f"challenge {k}: {bad}; not reproduced natively")
                return st, vio, und
    return st, vio, und


def replay(T, kinds, by, live, k, probe):
    """two message lists that differ and give the same challenge, or one list that repeats a challenge"""
    rnd = random.Random(1)
    if probe:
        a, b = probe
        x, y = T.run(kinds, a), T.run(kinds, b)
        if len(x) > k and x[k] == y[k] and any(a[by.index(v)] != b[by.index(v)] for v in live): return {"first": bytes(a).hex(), "second": bytes(b).hex(), "challenge": x[k]}
    idx = {v.decl().name(): i for i, v in enumerate(by)}
    base = [rnd.randrange(256) for _ in by]
    x = T.run(kinds, base)
    if len(x) > k and len(set(x)) < len(x): return {"first": bytes(base).hex(), "challenges": x}
    for v in live:
        for bit in range(8):
            b = list(base); b[idx[v.decl().name()]] ^= 1 << bit
            y = T.run(kinds, b)
            if len(y) > k and x[k] == y[k]: return {"first": bytes(base).hex(), "second": bytes(b).hex(), "challenge": x[k]}
            # only part of a digest is carried: challenges agree in half their bits
    return None


def written(T, kinds, timeout=60000):
    """the proof file holds every bit of every message of the proof, nothing about the randomness, and is as long as get_proof_size says"""
    st, vio, und = Stats(), [], []
    what = f"proof file of {kinds}: "
    for ex, by, oc, r in T.execute(FILE_, kinds, st):
        if oc != "ok" or len(ex.wr) != 1:
            und.append(what + f"{oc}, {len(ex.wr)} writes")
            continue
        f, n = ex.wr[0], ex.wrn
        live = [b for i, b in enumerate(by) if kinds[i // 32] != "r" and not (kinds[i // 32] == "c" and i % 32 >= 24)]
        hidden = [b for i, b in enumerate(by) if kinds[i // 32] == "r"]
        bad = None
        if n and live:
            p2, diff = prime([f], live)
            q, m = check([f == p2[0], z3.Or(*diff)], st, timeout, None)
            if q == "sat":
                bad = "two different proofs give the same file"
                a, b = concrete(m, by), concrete(m, by, "'")
            elif q == "unknown": und.append(what + "solver unknown")
        if not bad and hidden and n:
            p2, _ = prime([f], hidden)
            q, m = check([f != p2[0]], st, timeout, None)
            if q == "sat":
                bad = "the file depends on the randomness"
                a, b = concrete(m, by), concrete(m, by, "'")
        if not bad and r != n: bad, a, b = f"get_proof_size says {r}, the file has {n} bytes", [1] * len(by), [2] * len(by)
        if not bad: continue
        for i, v in enumerate(by):
            if bad[0] == "t" and "two" in bad and kinds[i // 32] == "r": b[i] = a[i]
            if "depends" in bad and kinds[i // 32] != "r": b[i] = a[i]
        (sa, fa), (sb, fb) = T.file(kinds, a), T.file(kinds, b)
        hit = (fa == fb) if "two" in bad else (fa != fb) if "depends" in bad else sa != len(fa)
        if hit: vio.append((what + bad, {"kinds": kinds, "first": bytes(a).hex(), "second": bytes(b).hex(), "size": sa, "bytes": len(fa)}))
        else: und.append(what + bad + "; not reproduced natively")
        return st, vio, und
    return st, vio, und


UF = {}


def uf(name, *ws):
    if name not in UF: UF[name] = z3.Function(name, *[z3.BitVecSort(w) for w in ws])
    return UF[name]


def aes128(text, key):
    """AES-128 (FIPS 197) with the instructions aesenc, aesenclast and aeskeygenassist left uninterpreted"""
    st = text ^ key
    for i, rc in enumerate((1, 2, 4, 8, 16, 32, 64, 128, 0x1b, 0x36)):
        g = z3.Extract(127, 96, uf(f"keygen{rc}", 128, 128)(key))
        w = [z3.Extract(32 * k + 31, 32 * k, key) for k in range(4)]
        w[0] = w[0] ^ g
        for k in (1, 2, 3): w[k] = w[k] ^ w[k - 1]
        key = z3.Concat(*reversed(w))
        st = uf("aesenclast" if i == 9 else "aesenc", 128, 128, 128)(st, key)
    return st


def hash_native():
    exe = os.path.join(tempfile.mkdtemp(dir=scratch()), "h")
    r = run(["clang++", "-std=c++11", "-O1", "-w", "-maes", "-msse4.1", "-DTRANS_NATIVE", f"-I{REPO}/include", os.path.join(VERIF, "harness/hhash_h.cpp"), "-o", exe])
    if r.returncode: raise BuildError(r.stderr[-2000:])
    return lambda mode, b: run([exe, mode, bytes(b).hex()], timeout=20).stdout.strip()


def real_aes(key, text):
    """FIPS 197, for the replay"""
    sb = []
    for x in range(256):
        inv = next((y for y in range(256) if gmul(x, y) == 1), 0)
        sb.append(inv ^ rot(inv, 1) ^ rot(inv, 2) ^ rot(inv, 3) ^ rot(inv, 4) ^ 0x63)
    ks, rc = [list(key[4 * i:4 * i + 4]) for i in range(4)], 1
    for i in range(4, 44):
        t = list(ks[-1])
        if i % 4 == 0:
            t = [sb[x] for x in t[1:] + t[:1]]; t[0] ^= rc; rc = gmul(rc, 2)
        ks.append([a ^ b for a, b in zip(ks[i - 4], t)])
    rk = [sum(ks[4 * i:4 * i + 4], []) for i in range(11)]
    s = [a ^ b for a, b in zip(text, rk[0])]
    for r in range(1, 11):
        s = [sb[s[(i + 4 * (i % 4)) % 16]] for i in range(16)]
        if r < 10:
            o = []
            for c in range(4):
                a = s[4 * c:4 * c + 4]
                o += [gmul(2, a[k]) ^ gmul(3, a[(k + 1) % 4]) ^ a[(k + 2) % 4] ^ a[(k + 3) % 4] for k in range(4)]
            s = o
        s = [a ^ b for a, b in zip(s, rk[r])]
    return s


def rot(x, k): return (x << k | x >> (8 - k)) & 255


def gmul(a, b):
    r = 0
    while b:
        if b & 1: r ^= a
        a = (a << 1) ^ (0x11b if a & 128 else 0); b >>= 1
    return r


def hashing(timeout=60000):
    """my_hhash(x) = AES_{x[0..16)}(x[16..32)) ^ x[16..32)  ||  AES_{x[32..48)}(x[48..64)) ^ x[48..64); equals() is equality"""
    st, vio, und = Stats(), [], []
    mod = load_module(os.path.join(VERIF, "harness/hhash_h.cpp"), [S + "/hashinc", os.path.join(REPO, "include")], ["-fno-threadsafe-statics"])
    nat = hash_native()
    by = [z3.BitVec(f"x{k}", 8) for k in range(64)]
    W = lambda k: z3.Concat(*reversed(by[16 * k:16 * k + 16]))
    two = lambda a: z3.Concat(word(a[1], 64), word(a[0], 64))       # the calling convention splits 128-bit words
    half = lambda w: (z3.Extract(63, 0, w), z3.Extract(127, 64, w))
    ext = {"f_aesenc": lambda ex, a: half(uf("aesenc", 128, 128, 128)(two(a), two(a[2:]))),
           "f_aesenclast": lambda ex, a: half(uf("aesenclast", 128, 128, 128)(two(a), two(a[2:]))),
           "f_keygen": lambda ex, a: half(uf(f"keygen{a[2] & 255}", 128, 128)(two(a)))}
    T = Transcript()

    def body(fn):
        def go(ex):
            sp, dp = ex.alloc(64), ex.alloc(32)
            for i, b in enumerate(by): ex.mem[sp.o][i] = (1, b)
            r = ex.call(fn, [sp, dp if fn == "run_hash" else Ptr(sp.o, sp.off + 32)])
            return [word(ex.get(Ptr(dp.o, 16 * k), 16), 128) for k in (0, 1)] if fn == "run_hash" else r
        return go
    for fn in ("run_hash", "run_equals"):
        for ex, oc, r in paths(lambda dec: T.exec(mod, dec, st, ext), body(fn), st, 20):
            pc = [c for c in ex.pc]
            if oc != "ok":
                und.append(f"{fn}: {oc}")
                continue
            if fn == "run_hash": bad = z3.Or(*[r[k] != aes128(W(2 * k + 1), W(2 * k)) ^ W(2 * k + 1) for k in (0, 1)])
            else:
                same = z3.And(W(0) == W(2), W(1) == W(3))
                hit = z3.BoolVal(bool(r & 1)) if isinstance(r, int) else r if z3.is_bool(r) else r != 0
                bad = hit != same
            q, m = check(pc + [bad], st, timeout, None)
            if q == "unknown": und.append(f"{fn}: solver unknown")
            if q != "sat": continue
            cands = [[m.eval(b, True).as_long() for b in by]] + [[random.Random(s).randrange(256) for _ in range(64)] for s in (1, 2)]
            for c in cands:
                if fn == "run_hash":
                    got = nat("h", c)
                    want = bytes(sum(([a ^ b for a, b in zip(real_aes(c[32 * k:32 * k + 16], c[32 * k + 16:32 * k + 32]), c[32 * k + 16:32 * k + 32])] for k in (0, 1)), [])).hex()
                else: got, want = nat("e", c), str(int(c[:32] == c[32:]))
                if got != want:
                    vio.append((f"{fn}: {bytes(c).hex()} gives {got}, not {want}", {"input": bytes(c).hex(), "got": got, "expected": want}))
                    break
            else: und.append(f"{fn}: counterexample not reproduced natively")
            if vio: break
    return st, vio, und


def tasks(prop, th):
    T = Transcript()
    try: par([T.module, T.native])
    except (BuildError, EncodeError): T = Transcript()
    ks = ["fd", "cd", "fcrd", "ffD", "cfcd", "fdcd", "fffcD"] + (["cfcfdfD", "ccccccccd", "fDfDfd", "rrrd"] if th else [])
    fs = ["f", "c", "fr", "cfrc", "rfcrf"] + (["ffffcccc", "crcrfrf"] if th else [])
    return [("hash", hashing)] + [("draw:" + k, lambda k=k: challenge(T, k)) for k in ks] + [("file:" + k, lambda k=k: written(T, k)) for k in fs], [
        f"message sequences {ks} (f field element, c group element, r public randomness, d/D one/three challenges drawn) and {fs}; every bit of every message symbolic, the compression function uninterpreted"]
