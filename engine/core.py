"""Shared machinery: scratch builds from /repo's working tree, traces of symbolic runs, solver queries,
evidence and verdicts."""
import atexit, hashlib, json, os, random, shutil, subprocess, sys, tempfile, time
from fractions import Fraction
import z3

sys.setrecursionlimit(200000)
REPO = os.environ.get("LIBRA_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = 16798108731015832284940804142231733909759579603404752749028378864165570215949
MAGIC_IN = 1900000000
CXX = os.environ.get("LIBRA_CXX", "clang++")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

_scratch = None
_owner = os.getpid()


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="libra-verif-")
        atexit.register(_cleanup)
    return _scratch


def _cleanup():
    if _scratch and os.getpid() == _owner:
        shutil.rmtree(_scratch, ignore_errors=True)


class BuildError(Exception):
    pass


class EncodeError(Exception):
    """The current source cannot be encoded by this engine."""


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


UNLIMITED = ["prlimit", "--as=unlimited"]      # AddressSanitizer reserves its shadow; a worker's limit would be inherited


def compile_obj(src, out, flags, include=()):
    cmd = [CXX, "-std=c++11", "-w", *flags, *[f"-I{i}" for i in include], "-c", src, "-o", out]
    r = run(cmd)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stderr[-3000:])
    return out


def par(fns):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(f) for f in fns]
        return [f.result() for f in fs]


PROGRAMS = {
    # program -> repository sources it is made of (the prime field library excepted)
    "fast": ["src/linear_gkr/verifier_fast_track.cpp", "src/linear_gkr/prover_fast_track.cpp", "src/linear_gkr/polynomial.cpp"],
    "trad": ["src/traditional_gkr/verifier_traditional.cpp", "src/traditional_gkr/prover_clogc.cpp", "src/linear_gkr/polynomial.cpp"],
    "bc": ["src/traditional_gkr/verifier_bc_clogc.cpp", "src/traditional_gkr/prover_bc_clogc.cpp", "src/linear_gkr/polynomial.cpp"],
    "para": ["src/linear_gkr/verifier_fast_para_track.cpp", "src/linear_gkr/prover_fast_para_track.cpp", "src/linear_gkr/polynomial.cpp"],
    "poly": ["src/linear_gkr/polynomial.cpp"],
    "zk": ["src/VPD/inputvpd.cpp", "src/VPD/vpdR.cpp", "src/VPD/vpd_test.cpp", "src/linear_gkr/zk_verifier.cpp", "src/linear_gkr/zk_prover.cpp", "src/linear_gkr/polynomial.cpp"],
    "vpdbits": [],
    "zkmain": ["src/linear_gkr/polynomial.cpp"],
    "vpd": ["src/VPD/inputvpd.cpp", "src/VPD/vpdR.cpp", "src/VPD/vpd_test.cpp"],
}
SYMFLAGS = ["-O1", "-g1", "-fno-inline", "-fno-omit-frame-pointer"]
NATFLAGS = ["-O2"]


class Program:
    """A harness linked with the repository's sources; symbolic (field layer replaced by the term
    engine) or native (the repository's own field layer)."""

    def __init__(self, prog, harness, weak=(), extra_inc=(), defs=(), extra_src=(), sym_inc=(), nat_src=(), flags=(), repo_symflags=()):
        self.prog, self.harness = prog, harness
        self.weak = set(weak)
        self.inc = [os.path.join(VERIF, "harness"), *extra_inc, os.path.join(REPO, "include")]
        self.defs = [f"-D{d}" for d in defs]
        self.extra_src = list(extra_src)
        self.repo_symflags = list(repo_symflags)
        self.sym_inc, self.nat_src, self.flags = list(sym_inc), list(nat_src), list(flags)
        self.bin = {}
        self.env = {"MALLOC_PERTURB_": "165"}      # memory never written holds junk
        self.ld = lambda mode: []

    def build(self, mode, asan=False):
        key = (mode, asan)
        if key in self.bin:
            return self.bin[key]
        tag = hashlib.sha1(repr((self.prog, self.harness, mode, asan, sorted(self.weak), self.defs)).encode()).hexdigest()[:10]
        d = os.path.join(scratch(), f"{self.prog}_{self.harness}_{mode}_{tag}")
        os.makedirs(d, exist_ok=True)
        base = list(SYMFLAGS if mode == "sym" else NATFLAGS) + self.defs + self.flags + (["-DSYMBOLIC_BUILD"] if mode == "sym" and self.sym_inc else [])
        inc = (self.sym_inc if mode == "sym" else []) + self.inc
        if asan:
            base += ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
        objs, jobs = [], []
        for s in PROGRAMS[self.prog]:
            o = os.path.join(d, os.path.basename(s) + ".o")
            objs.append(o)
            jobs.append(lambda s=s, o=o: compile_obj(os.path.join(REPO, s), o, base + (self.repo_symflags if mode == "sym" else []), inc))
        for s in (self.nat_src if mode == "nat" and self.nat_src else self.extra_src):
            o = os.path.join(d, "x_" + os.path.basename(s) + ".o")
            objs.append(o)
            jobs.append(lambda s=s, o=o: compile_obj(s, o, base, inc + [os.path.join(VERIF, "engine/shim")]))
        pf = os.path.join(d, "prime_field.o")
        jobs.append(lambda: compile_obj(os.path.join(REPO, "src/linear_gkr/prime_field.cpp"), pf, base, self.inc))
        ho = os.path.join(d, "harness.o")
        jobs.append(lambda: compile_obj(os.path.join(VERIF, "harness", self.harness), ho, base, inc))
        sh = os.path.join(d, "shim.o")
        src = "symfield.cpp" if mode == "sym" else "replay.cpp"
        jobs.append(lambda: compile_obj(os.path.join(VERIF, "engine/shim", src), sh, base,
                                        [os.path.join(VERIF, "engine/shim")]))
        par(jobs)
        # the field library: in symbolic mode every symbol yields to the term engine;
        # in native mode only the source of randomness is replaced
        if mode == "sym":
            run(["objcopy", "-w", "--weaken-symbol=*", pf])
        else:
            run(["objcopy", "-w", "--weaken-symbol=_ZN11prime_field6randomEv", pf])
        for s in PROGRAMS[self.prog]:
            if os.path.basename(s) in self.weak:
                run(["objcopy", "-w", "--weaken-symbol=*", os.path.join(d, os.path.basename(s) + ".o")])
        out = os.path.join(d, "prog")
        cmd = [CXX, sh, pf, *objs, ho, *self.ld(mode), *(["-fsanitize=address,undefined"] if asan else []), "-lgmpxx", "-lgmp", "-lpthread", "-o", out]
        r = run(cmd)
        if r.returncode:
            raise BuildError(" ".join(cmd) + "\n" + r.stderr[-3000:])
        self.bin[key] = out
        return out

    def trace(self, args, decisions="", flip=0, seed=1, cwd=None, files=None, alarm=240, asan=False):
        exe = self.build("sym", asan)
        d = tempfile.mkdtemp(dir=scratch())
        for n, t in (files or {}).items():
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        tr = os.path.join(d, "trace")
        env = dict(os.environ, SYMX_TRACE=tr, SYMX_DECISIONS=decisions, SYMX_FLIP=str(flip), SYMX_SEED=str(seed), SYMX_ALARM=str(alarm), **self.env)
        try:
            r = run([*(UNLIMITED if asan else []), exe, *args], env=env, cwd=d, timeout=alarm + 60)
            stderr = r.stderr
            rc = r.returncode
        except subprocess.TimeoutExpired:
            stderr, rc = "timeout", -1
        try:
            t = Trace(tr)
        except OSError:
            t = None
        shutil.rmtree(d, ignore_errors=True)
        if t is None:
            raise EncodeError(f"symbolic run left no trace (rc={rc}): {stderr[-400:]}")
        t.stderr = stderr
        return t

    def native(self, args, values, files=None, asan=False, timeout=120):
        """Run the native build with the given named field values; returns (verdict, observations, stdout)."""
        exe = self.build("nat", asan)
        d = tempfile.mkdtemp(dir=scratch())
        for n, t in (files or {}).items():
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        vf, of = os.path.join(d, "values"), os.path.join(d, "obs")
        with open(vf, "w") as f:
            for k, v in values.items():
                f.write(f"{k} {v % P}\n")
        env = dict(os.environ, REPLAY_VALUES=vf, REPLAY_OUT=of, **self.env)
        try:
            r = run([*(UNLIMITED if asan else []), exe, *args], env=env, cwd=d, timeout=timeout)
            rc, so = r.returncode, r.stdout + r.stderr
        except subprocess.TimeoutExpired:
            rc, so = -99, "timeout"
        verdict, obs = None, []
        if os.path.exists(of):
            for l in open(of):
                t = l.split()
                if t[0] == "V":
                    verdict = t[1]
                elif t[0] == "O":
                    obs.append((t[1], int(t[2])))
        if verdict is None:
            verdict = f"died(rc={rc})"
        shutil.rmtree(d, ignore_errors=True)
        return verdict, obs, so


# ------------------------------------------------------------------------------------------ traces
def ratrec(c, p=P):
    """constant of F_p as a small rational when it is one (inverse of 2 and the like)"""
    c %= p
    if c < (1 << 120):
        return Fraction(c)
    if p - c < (1 << 120):
        return Fraction(c - p)
    # continued fraction
    r0, r1, t0, t1 = p, c, 0, 1
    while r1 >= (1 << 100):
        q = r0 // r1
        r0, r1, t0, t1 = r1, r0 - q * r1, t1, t0 - q * t1
    if t1 and abs(t1) < (1 << 100):
        return Fraction(r1, t1)
    return Fraction(c)


class Trace:
    fix = None           # symbol name -> constant it is taken to be in z3 terms, or None

    def __init__(self, path):
        self.nodes = []      # (op, a, b) | ('S', name) | ('C', int)
        self.shadow = []
        self.log = []        # ordered: ('E', idx, a, b, out, dflt) ('O', name, ring, canon) ('N', text) ('T', ...)
        self.verdict = None
        self.p = P
        self.ranges = 0
        with open(path) as f:
            for line in f:
                t = line.split()
                k = t[0]
                if k in "+-*":
                    a, b = int(t[2]), int(t[3])
                    self.nodes.append((k, a, b))
                    x, y = self.shadow[a], self.shadow[b]
                    self.shadow.append((x + y if k == "+" else x - y if k == "-" else x * y) % P)
                elif k == "S":
                    self.nodes.append(("S", t[2]))
                    self.shadow.append(int(t[3]))
                elif k == "C":
                    self.nodes.append(("C", int(t[2])))
                    self.shadow.append(int(t[2]))
                elif k == "E":
                    self.log.append(("E", int(t[1]), int(t[2]), int(t[3]), int(t[4]), int(t[5])))
                elif k == "O":
                    self.log.append(("O", t[1], int(t[2]), t[3] == "1"))
                elif k == "N":
                    self.log.append(("N", line[2:].strip()))
                elif k == "T":
                    self.log.append(("T", line[2:].strip()))
                elif k == "G":
                    self.ranges += 1
                elif k == "V":
                    self.verdict = t[1]
        if self.verdict is None:
            raise EncodeError("truncated trace")
        self._z = {}
        self._sup = {}

    def events(self):
        return [e for e in self.log if e[0] == "E"]

    def outs(self):
        return {e[1]: e[2] for e in self.log if e[0] == "O"}

    def notes(self):
        return [e[1] for e in self.log if e[0] == "N"]

    def taints(self):
        return [e[1] for e in self.log if e[0] == "T"]

    def z(self, i):
        """z3 real term of node i (iterative)"""
        zz = self._z
        if i in zz:
            return zz[i]
        st = [i]
        while st:
            n = st[-1]
            if n in zz:
                st.pop()
                continue
            nd = self.nodes[n]
            if nd[0] == "S":
                f = self.fix(nd[1]) if self.fix else None
                zz[n] = z3.Real(nd[1]) if f is None else z3.RealVal(f); st.pop()
            elif nd[0] == "C":
                zz[n] = zconst(nd[1]); st.pop()
            else:
                a, b = nd[1], nd[2]
                if a in zz and b in zz:
                    x, y = zz[a], zz[b]
                    if self.fix and z3.is_rational_value(x) and z3.is_rational_value(y):
                        x, y = x.as_fraction(), y.as_fraction()
                        r = x + y if nd[0] == "+" else x - y if nd[0] == "-" else x * y
                        zz[n] = z3.RealVal(f"{r.numerator}/{r.denominator}"); st.pop()
                        continue
                    zz[n] = x + y if nd[0] == "+" else x - y if nd[0] == "-" else x * y
                    st.pop()
                else:
                    if b not in zz: st.append(b)
                    if a not in zz: st.append(a)
        return zz[i]

    def support(self, i):
        if i in self._sup:
            return self._sup[i]
        st = [i]
        while st:
            n = st[-1]
            if n in self._sup:
                st.pop(); continue
            nd = self.nodes[n]
            if nd[0] == "S":
                self._sup[n] = frozenset([nd[1]]); st.pop()
            elif nd[0] == "C":
                self._sup[n] = frozenset(); st.pop()
            else:
                a, b = nd[1], nd[2]
                if a in self._sup and b in self._sup:
                    self._sup[n] = self._sup[a] | self._sup[b]; st.pop()
                else:
                    if b not in self._sup: st.append(b)
                    if a not in self._sup: st.append(a)
        return self._sup[i]

    # reference terms live in the same DAG
    def const(self, c):
        c %= P
        k = ("C", c)
        if not hasattr(self, "_cons"):
            self._cons = {}
            for i, nd in enumerate(self.nodes):
                self._cons[nd] = i
        if k not in self._cons:
            self.nodes.append(k); self.shadow.append(c)
            self._cons[k] = len(self.nodes) - 1
        return self._cons[k]

    def symnode(self, name):
        self.const(0)
        k = ("S", name)
        if k not in self._cons:
            self.nodes.append(k); self.shadow.append(random.Random(name).randrange(P))
            self._cons[k] = len(self.nodes) - 1
        return self._cons[k]

    def mk(self, op, a, b):
        self.const(0)
        na, nb = self.nodes[a], self.nodes[b]
        if na[0] == "C" and nb[0] == "C":
            x, y = na[1], nb[1]
            return self.const(x + y if op == "+" else x - y if op == "-" else x * y)
        if op == "+":
            if na == ("C", 0): return b
            if nb == ("C", 0): return a
        if op == "-":
            if nb == ("C", 0): return a
            if a == b: return self.const(0)
        if op == "*":
            if na == ("C", 0) or nb == ("C", 0): return self.const(0)
            if na == ("C", 1): return b
            if nb == ("C", 1): return a
        if op in "+*" and a > b:
            a, b = b, a
        k = (op, a, b)
        if k not in self._cons:
            x, y = self.shadow[a], self.shadow[b]
            self.nodes.append(k)
            self.shadow.append((x + y if op == "+" else x - y if op == "-" else x * y) % P)
            self._cons[k] = len(self.nodes) - 1
        return self._cons[k]

    def evalp(self, env):
        """evaluate every node mod p under env (missing symbols 0)"""
        v = []
        for nd in self.nodes:
            if nd[0] == "S": v.append(env.get(nd[1], 0) % P)
            elif nd[0] == "C": v.append(nd[1])
            else:
                x, y = v[nd[1]], v[nd[2]]
                v.append((x + y if nd[0] == "+" else x - y if nd[0] == "-" else x * y) % P)
        return v


def zconst(c):
    f = ratrec(c)
    return z3.RealVal(f.numerator) if f.denominator == 1 else z3.Q(f.numerator, f.denominator)


class Stats:
    def __init__(self):
        self.queries = self.unsat = self.sat = self.unknown = 0
        self.time = 0.0
        self.paths = 0
        self.runs = 0

    def add(self, o):
        for k in ("queries", "unsat", "sat", "unknown", "time", "paths", "runs"):
            setattr(self, k, getattr(self, k) + getattr(o, k))

    def dict(self):
        return {"solver_queries": self.queries, "unsat": self.unsat, "sat": self.sat, "unknown": self.unknown,
                "solver_seconds": round(self.time, 3), "paths": self.paths, "symbolic_runs": self.runs}


def check(cons, stats, timeout=60000, logic="QF_NRA", seed=None):
    s = z3.SolverFor(logic) if logic else z3.Solver()
    if seed: s.set("random_seed", seed)
    s.set("timeout", timeout)
    s.add(*cons)
    t = time.time()
    r = s.check()
    stats.time += time.time() - t
    stats.queries += 1
    if r == z3.unsat:
        stats.unsat += 1
        return "unsat", None
    if r == z3.sat:
        stats.sat += 1
        return "sat", s.model()
    stats.unknown += 1
    return "unknown", None


def model_mod_p(m, names):
    """rational model -> residues mod p; None if some value is irrational"""
    env = {}
    for n in names:
        v = m.eval(z3.Real(n), model_completion=True)
        if z3.is_rational_value(v):
            num, den = v.numerator_as_long(), v.denominator_as_long()
            if den % P == 0:
                return None
            env[n] = num * pow(den, -1, P) % P
        else:
            return None
    return env


# ---------------------------------------------------------------------------------------- evidence
class Report:
    def __init__(self, prop, level="other"):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        if "--quick" in sys.argv:
            self.tier = "quick"
        self.t0 = time.time()
        self.stats = Stats()
        self.functions, self.bounds, self.assumptions, self.notes = [], [], [], []
        self.violations, self.known = [], []
        self.undecided = []
        self.extra = {}
        self.witness = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def violation(self, what, detail, ident=None):
        """what: one-line description; detail: replay document; ident: key matched with known findings"""
        for k in load_known():
            if k.get("status") == "known" and k.get("property") == self.prop and ident and k.get("ident") == ident:
                if ident not in [x[0] for x in self.known]:
                    self.known.append((ident, k.get("what", what)))
                return
        self.violations.append((what, detail))

    def finish(self):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        vio = []
        for i, (what, detail) in enumerate(self.violations[:5]):
            rp = os.path.join(d, f"{self.prop}.replay{i}.json")
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "what": what, "detail": detail}, f, indent=1, default=str)
            vio.append({"what": what, "replay": rp})
        cov = {"explanation": "solver-based symbolic execution of the real code; see DESIGN.md",
               "functions_encoded": self.functions, "bounds": self.bounds, "notes": self.notes,
               "undecided": self.undecided, "reachability_witnesses": self.witness, **self.stats.dict(), **self.extra}
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "assumptions": self.assumptions, "violations": len(vio)}
        ev_schema_fix(ev, vio)
        with open(os.path.join(d, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for ident, what in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {what}")
        for w in vio:
            print(f"VIOLATION property={self.prop} replay={w['replay']}")
            print("  " + w["what"])
        s = self.stats
        print(f"[{self.prop}/{self.tier}] {s.queries} queries ({s.unsat} unsat, {s.sat} sat, {s.unknown} unknown), "
              f"{s.time:.1f}s solver, {s.runs} symbolic runs, {time.time()-self.t0:.1f}s wall, undecided={len(self.undecided)}")
        sys.stdout.flush()
        sys.exit(1 if vio else 0)


def ev_schema_fix(ev, vio):
    ev["violations"] = len(vio)
    if vio:
        ev["coverage"]["violations_detail"] = vio


def load_known():
    out = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            l = l.strip()
            if l.startswith("{"):     # other lines: comments and "fixed:" entries, which suppress nothing
                out.append(json.loads(l))
    except OSError:
        pass
    return out
