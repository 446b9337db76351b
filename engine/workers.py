"""Worker threads: no schedule of the multithreaded prover changes what it computes.

The repository's sources are compiled with clang's memory-access callbacks and executed symbolically once per circuit; the
accesses of every fork-join region are recorded with the pairs of threads that may run at the same time.  The solver decides,
per region, whether some memory word is written by one thread and touched by a concurrent one.  If none is, every interleaving
computes what the encoded order computes, and M01-M03, decided on that order, hold for every schedule.
"""
import os, subprocess, random
import z3
from core import *
from circuits import *
from explore import *
import gkr, core


def log_program():
    return Program("para", "gkr_honest.cpp", defs=["PROG_PARA", "PAR_LOG_ACCESS"], extra_src=[os.path.join(VERIF, "harness/par_threads.cpp")],
                   repo_symflags=["-fsanitize=thread"])


def regions(t):
    """region -> ({thread: [(lo, hi, rpc, wpc)]}, concurrent pairs)"""
    reg = {}
    for e in t.log:
        if e[0] != "N":
            continue
        w = e[1].split()
        if w[0] == "acc":
            r = reg.setdefault(int(w[1]), ({}, set()))
            r[0].setdefault(w[2], []).append(tuple(int(x, 16) for x in w[3:7]))
        elif w[0] == "conc":
            reg.setdefault(int(w[1]), ({}, set()))[1].add((w[2], w[3]))
    for r, (acc, conc) in reg.items():
        for k in acc:                       # the main thread, while the listed workers are outstanding
            if k.startswith("m"):
                for j in k[1:].split(","):
                    if j:
                        conc.add((k, j))
    return reg


def race(acc, conc, st):
    x = z3.Int("word")

    def inside(l, w):
        iv = sorted((a, b) for a, b, rp, wp in l if (wp if w else 1))
        m = []
        for a, b in iv:
            if m and m[-1][1] >= a:
                m[-1][1] = max(m[-1][1], b)
            else:
                m.append([a, b])
        return z3.Or(*[z3.And(x >= a, x < b) for a, b in m]) if m else z3.BoolVal(False)
    W = {k: inside(l, True) for k, l in acc.items()}
    A = {k: inside(l, False) for k, l in acc.items()}
    pairs = [(i, j) for i, j in sorted(conc) if i in acc and j in acc]
    if not pairs:
        return None
    who = z3.Int("pair")
    r, m = check([z3.Or(*[z3.And(who == n, z3.Or(z3.And(W[i], A[j]), z3.And(A[i], W[j]))) for n, (i, j) in enumerate(pairs)])], st, 60000, logic="QF_LIA")
    if r == "unsat":
        return None
    if r != "sat":
        return "unknown"
    word, (i, j) = m[x].as_long(), pairs[m[who].as_long()]
    hit = lambda k: next(z for z in acc[k] if z[0] <= word < z[1] and (z[3] or True))
    return word, i, j, hit(i), hit(j)


def where(exe, pc):
    if not pc:
        return "-"
    r = subprocess.run(["addr2line", "-f", "-C", "-e", exe, hex(pc - 1)], stdout=subprocess.PIPE, text=True).stdout.split("\n")
    return f"{r[0]} ({os.path.basename(r[1])})" if len(r) > 1 else "?"


def tsan_program():
    """the program itself, threads and all, under ThreadSanitizer: confirms a reported race"""
    d = os.path.join(scratch(), "para_tsan")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "prog")
    import fcntl
    lock = open(os.path.join(d, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if not os.path.exists(out):
        src = [os.path.join(REPO, "src/linear_gkr", s) for s in ("main_fast_para_track.cpp", "verifier_fast_para_track.cpp", "prover_fast_para_track.cpp", "polynomial.cpp", "prime_field.cpp")]
        cmd = [CXX, "-std=c++11", "-w", "-g1", "-O1", "-fsanitize=thread", f"-I{REPO}/include", *src, "-o", out + ".new", "-lgmpxx", "-lgmp", "-lpthread"]
        r = run(cmd)
        if r.returncode:
            raise BuildError(" ".join(cmd) + r.stderr[-2000:])
        os.replace(out + ".new", out)
    lock.close()
    return out


def tsan_confirms(circ):
    d = tempfile.mkdtemp(dir=scratch())
    try:
        with open(os.path.join(d, "test_circuit.txt"), "w") as f:
            f.write(circ.text([3 * k + 1 for k in range(circ.ninputs())]))
        r = subprocess.run([tsan_program()], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
        return "ThreadSanitizer: data race" in r.stdout, r.stdout[-1500:]
    except (BuildError, subprocess.TimeoutExpired) as e:
        return False, str(e)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def schedule_free(prog, native, circ):
    st, vio, und = Stats(), [], []
    args, files = gkr.run_args("para", circ, "verify", 0)
    rnd = random.Random(5)
    t = prog.trace(args, files=files)
    st.runs += 1
    st.paths += 1
    if t.verdict not in ("accept", "reject"):
        und.append(f"{circ.name}: the run ended with {t.verdict}")
    reg = regions(t)
    if not any(conc for acc, conc in reg.values()):
        und.append(f"{circ.name}: no two threads ran at the same time (vacuous)")
    for k in sorted(reg):
        acc, conc = reg[k]
        r = race(acc, conc, st)
        if r is None:
            continue
        if r == "unknown":
            und.append(f"{circ.name}: region {k}: solver unknown")
            continue
        word, i, j, a, b = r
        exe = prog.bin[("sym", False)]
        d = lambda z: f"reads at {where(exe, z[2])}" + (f", writes at {where(exe, z[3])}" if z[3] else "") if z[2] else f"writes at {where(exe, z[3])}"
        msg = f"para: fork-join region {k} on circuit {circ.name}: threads {i} and {j} touch the same word: {i} {d(a)}; {j} {d(b)}"
        # the real code under two orders of whole threads, then under ThreadSanitizer
        env = {f"x{q}": rnd.randrange(P) for q in range(circ.ninputs())}
        env = {**env, **{f"c{q}": rnd.randrange(P) for q in range(2000)}}
        inp = {n: v % 1000 for n, v in env.items()}
        a2, f2 = gkr.run_args("para", circ, "verify", 0, inp)
        seen, base = {}, native.env
        for o in ("0123", "3210", "1032", "2301", "", "L", f"L{i}", f"L{j}"):
            native.env = {**base, "PAR_ORDER": o}
            seen[o] = native.native(a2, env, f2)[0]
        native.env = base
        if len(set(seen.values())) > 1 or set(seen.values()) - {"accept"}:
            vio.append((msg + f"; native verdicts by thread order: {seen}", {"circuit": f2, "orders": seen}))
            break
        ok, txt = tsan_confirms(circ)
        if ok:
            vio.append((msg + "; ThreadSanitizer confirms on the compiled program", {"circuit": circ.text([3 * q + 1 for q in range(circ.ninputs())]), "tsan": txt}))
        else:
            und.append(msg + "; neither thread order nor ThreadSanitizer shows an effect")
        break
    return st, vio, und
