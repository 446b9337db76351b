"""bin/gen_lanczos.py: the circuit it writes is executed symbolically and compared by the solver with the 2-lobe Lanczos filter."""
import math
from core import *
from transval import Dag, same, parse_circuit, evaluate, Malformed
from sha import JY

IDENT = "vertical-pass-unweighted"


def script(args, timeout=120):
    d = tempfile.mkdtemp(dir=scratch())
    shutil.copy(os.path.join(REPO, "bin/gen_lanczos.py"), d)
    r = run([JY, "-Dpython.cachedir.skip=true", "gen_lanczos.py", *args], cwd=d, timeout=timeout)
    p = os.path.join(d, "test_circuit.txt")
    out = open(p).read() if os.path.exists(p) else None
    shutil.rmtree(d, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr, out


def taps(r):
    """2^36 times the (one-dimensional, normalised by the ratio) filter, at distance (k + 1/2) / r from the centre"""
    out = []
    for k in range(2 * r):
        x = (k + 0.5) / r
        out.append(2 ** 36 * math.sin(math.pi * x) / (math.pi * x) * math.sin(math.pi * x / 2) / (math.pi * x / 2) / r)
    return out


def lanczos(r, n):
    st = Stats()
    what = f"gen_lanczos.py {r} {n}"
    doc = {"command": "jython bin/" + what}
    rc, msg, text = script([str(r), str(n)])
    st.paths += 1; st.runs += 1
    if n < 4 * r or n % r:
        ok = rc != 0 and text is None
        return st, [] if ok else [(f"{what}: accepted, although the dimension is below four times the ratio or not divisible by it", doc)], []
    if rc != 0 or text is None: return st, [(f"{what}: exits with {rc}: {msg[-200:]}", doc)], []
    try: L = parse_circuit(text)
    except Malformed as e: return st, [(f"{what}: {e}", doc)], []
    reps = n // r - 3
    npix, nt = n * n, 2 * r
    vio = []
    t = taps(r)
    for g, (ty, u, v) in enumerate(L[0]):
        if g < npix:
            if ty != 3 or not 0 <= u <= 256: vio.append((f"{what}: input gate {g} is {ty} {u}, not a pixel", doc))
        elif g < npix + nt:
            if ty != 3 or abs(u - t[g - npix]) > 2 ** 16 + 16: vio.append((f"{what}: coefficient {g - npix} is {u}, the filter gives {t[g - npix]:.0f}", doc))
        elif ty != 2: vio.append((f"{what}: input gate {g} is not padding", doc))
    if vio: return st, vio[:3], []
    D = Dag()
    lays = evaluate(D, L, lambda g, u: D.s(f"p{g}") if g < npix else D.s(f"c{g - npix}"))
    px = lambda y, x: lays[0][n * y + x]
    cf = lambda i: lays[0][npix + (2 * r - 1 - i if i < 2 * r else i - 2 * r)]
    full, flat = [], []
    for xr in range(reps):
        for yr in range(reps):
            a, b = D.c(0), D.c(0)
            for y in range(4 * r):
                row = D.c(0)
                for x in range(4 * r): row = D.op("+", row, D.op("*", cf(x), px(r * yr + y, r * xr + x)))
                a = D.op("+", a, D.op("*", cf(y), row)); b = D.op("+", b, row)
            full.append(a); flat.append(b)
    got = lays[-1]
    w = 1
    while w < len(full): w *= 2
    if len(got) != w: return st, [(f"{what}: {len(got)} outputs, {w} expected", doc)], []
    und = []
    unw = 0
    for i in range(w):
        want = D.c(0)
        if i < len(full):
            want = full[i]
            if D.sh[got[i]] == D.sh[flat[i]]: want = flat[i]; unw += 1
        v, u = same(D, [got[i]], [want], st, f"{what}: window {i}")
        for m, d in v: d.update(doc); vio.append((m, d))
        und += u
        if len(vio) > 2: break
    if unw: vio.append((f"{what}: {unw} of {len(full)} windows are weighted by columns only: the vertical pass adds the rows without the filter's weights",
                        {**doc, "ident": IDENT}))
    return st, vio, und


def tasks(prop, th):
    t = []
    for r, n in [(1, 4), (1, 5), (1, 6), (2, 8), (2, 10), (2, 14), (3, 12), (3, 15), (4, 16), (2, 6), (2, 9)] + \
                ([(1, 7), (1, 12), (2, 16), (2, 20), (3, 18), (4, 20), (4, 32), (5, 20), (5, 30), (6, 24), (8, 32), (8, 48), (3, 9), (3, 13)] if th else []):
        t.append((f"lanczos {r} {n}", lambda r=r, n=n: lanczos(r, n)))
    return t, ["ratio/dimension pairs: quick 11 (ratio 1..4, up to 16x16 pixels), thorough 25 (ratio up to 8, up to 48x48); all pixel and coefficient values"]
