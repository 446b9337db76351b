"""Generational exploration of the branches a symbolic run takes on field equality, every branch decided by the solver."""
import random
import z3
from core import *


def ev_con(t, e, out):
    a, b = t.z(e[2]), t.z(e[3])
    return (a == b) if out else (a != b)


class Path:
    def __init__(self, trace, pc):
        self.t, self.pc = trace, pc      # pc: list of (a, b, equal?) node triples that are not identities


def explore(runner, stats, max_paths=64, timeout=30000, first=""):
    """runner(decisions) -> Trace.  Yields Path objects; the run follows the engine's concrete shadow by default,
    and every branch whose other side the solver cannot exclude is scheduled."""
    work = [(first, 0)]
    seen = 0
    undecided = []
    while work and seen < max_paths:
        dec, fixed = work.pop()
        t = runner(dec)
        stats.runs += 1
        seen += 1
        pc = []
        cur = []
        for e in t.events():
            i, a, b, out = e[1], e[2], e[3], e[4]
            if i >= fixed:
                # is the other side feasible?
                cons = [t.z(x) == t.z(y) if q else t.z(x) != t.z(y) for x, y, q in pc]
                other = (t.z(a) != t.z(b)) if out else (t.z(a) == t.z(b))
                r, _ = check(cons + [other], stats, timeout)
                if r == "unsat":
                    cur.append(str(out))
                    continue          # identity here: no constraint, no fork
                if r == "unknown":
                    undecided.append(f"branch {i}: solver unknown")
                work.append(("".join(cur) + str(1 - out), i + 1))
                pc.append((a, b, bool(out)))
            else:
                pc.append((a, b, bool(out)))
            cur.append(str(out))
        stats.paths += 1
        yield Path(t, pc), undecided
    if work:
        undecided.append(f"path limit {max_paths} reached with {len(work)} pending")
        yield None, undecided


def holds_mod_p(t, pc, env):
    v = t.evalp(env)
    return all((v[a] == v[b]) == q for a, b, q in pc)


def concretise(t, pc, stats, rnd, is_input=lambda n: n.startswith("x"), tries=12, extra=None):
    """an assignment mod p satisfying the path condition; inputs are small integers"""
    names = [nd[1] for nd in t.nodes if nd[0] == "S"]
    extra = extra or []

    def rand_env(k):
        env = {}
        for n in names:
            if is_input(n):
                env[n] = rnd.randrange(0, 50) if k % 2 else rnd.randrange(0, 1 << 30)
            else:
                env[n] = rnd.choice([P - 1, P - 2, 1, 2, 0, rnd.randrange(P)]) if k % 4 == 3 else rnd.randrange(P)
        return env
    for k in range(tries):
        env = rand_env(k)
        if holds_mod_p(t, pc, env):
            return env
    eqs = [(a, b) for a, b, q in pc if q]
    sup = set()
    for a, b in eqs:
        sup |= t.support(a) | t.support(b)
    for k in range(4):
        env = {n: (rnd.randrange(0, 20) if is_input(n) else rnd.randrange(2, 40)) for n in names}
        cons = [t.z(a) == t.z(b) if q else t.z(a) != t.z(b) for a, b, q in pc]
        cons += [z3.Real(n) == env[n] for n in names if n not in sup] if k < 3 else []
        ints = [n for n in sup if is_input(n)]
        r, m = check(cons + [z3.And(z3.Real(n) >= 0, z3.Real(n) <= 1000) for n in ints], stats, 20000)
        if r == "sat":
            e2 = model_mod_p(m, names)
            if e2 is None:
                continue
            if any(is_input(n) and e2[n] >= (1 << 31) for n in names):
                continue
            if holds_mod_p(t, pc, e2):
                return e2
    return None
