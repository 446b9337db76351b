"""Circuit families used as the stated configuration bounds."""
import random
from core import MAGIC_IN

ALL = [0, 1, 2, 5, 6, 7, 8, 9, 10]
TRAD = [0, 1, 2]


class Circuit:
    """layers[0]: list of (ty, value); layers[i>0]: list of (ty, u, v)."""

    def __init__(self, name, layers):
        self.name, self.layers = name, layers

    def ninputs(self):
        return len(self.layers[0])

    def text(self, inputs=None):
        """inputs: list of concrete integers, or None for the symbolic inputs"""
        out = [str(len(self.layers))]
        l = []
        for k, g in enumerate(self.layers[0]):
            ty, val = g[:2]
            x = val
            if ty == 3 and val is None:
                x = MAGIC_IN + k if inputs is None else inputs[k]
            l.append(f"{ty} {k} {x or 0} {g[3] if len(g) > 3 else 0}")
        out.append(f"{len(l)} " + " ".join(l))
        for lay in self.layers[1:]:
            out.append(f"{len(lay)} " + " ".join(f"{t} {g} {u} {v}" for g, (t, u, v) in enumerate(lay)))
        return "\n".join(out) + "\n"


def bits(n):
    if n == 1:
        return 1
    b = 0
    while (1 << b) < n:
        b += 1
    return b


def pow2(n):
    return n >= 1 and (n & (n - 1)) == 0


def inputs(n, dummies=()):
    return [((2, 0) if k in dummies else (3, None)) for k in range(n)]


def universal(ty, n=4):
    """one layer with every (u, v) the gate type admits over n inputs"""
    if ty in (6, 10):
        g = [(ty, u, 0) for u in range(n)]
    elif ty == 5:
        g = [(5, u, v) for u in range(n) for v in range(u, n + 1)]
    elif ty == 2:
        g = [(2, 0, 0)] * n
    else:
        g = [(ty, u, v) for u in range(n) for v in range(n)]
    m = 1
    while m < len(g):
        m *= 2
    g += [(2, 0, 0)] * (m - len(g))
    return Circuit(f"all-pairs-ty{ty}-n{n}", [inputs(n), g])


def mixed(sizes, types, seed, name=None, dummies=()):
    rnd = random.Random(seed * 7919 + len(sizes))
    layers = [inputs(sizes[0], dummies)]
    k = 0
    for m, n in zip(sizes, sizes[1:]):
        lay = []
        for _ in range(n):
            ty = types[(k + rnd.randrange(2)) % len(types)] if k % 3 else types[rnd.randrange(len(types))]
            k += 1
            u, v = rnd.randrange(m), rnd.randrange(m)
            if ty in (6, 10):
                v = 0
            if ty == 5:
                u, v = min(u, v), max(u, v) + 1
            if ty == 2:
                u = v = 0
            lay.append((ty, u, v))
        layers.append(lay)
    return Circuit(name or "mixed-" + "x".join(map(str, sizes)) + f"-s{seed}", layers)


def junk(types):
    """operands that the gate type does not use hold non-zero (in range) indices"""
    ins = [(3, None, 0, 3), (3, None, 0, 2), (2, 0, 0, 1), (3, None, 0, 1)]
    lay = []
    for k, t in enumerate([t for t in types if t not in (6, 10, 5)][:6] + [2, 2]):
        lay.append((t, (k + 1) % 4, (3 * k + 2) % 4))
    while len(lay) & (len(lay) - 1): lay.append((2, 3, 1))
    lay2 = [(0, 1, 0), (2, 2, 3), (1, len(lay) - 1, 1), (2, 1, 1)]
    return Circuit("junk-in-unused-operands", [ins, lay, lay2])


def pairs(types):
    """every ordered pair of gate types on the same two operands, side by side; repeated gates; a value used by every gate"""
    live = [t for t in types if t != 2]
    seq = []
    for a in live:
        for b in live: seq += [a, b]
    op = lambda t, u, v: (t, u, 0) if t in (6, 10) else (5, min(u, v), max(u, v) + 1) if t == 5 else (t, u, v)
    lay = [op(t, 2, 1) for t in seq]
    while len(lay) & (len(lay) - 1): lay.append((2, 0, 0))
    return Circuit("type-pairs-same-operands", [inputs(4), lay])


# wide and deep shapes.  The wide ones cost seconds for the soundness and evaluation obligations (each is one checked identity)
# but not for completeness, whose round identities expand over all gates at once.
DEEP = [[4] * 9, [2, 4, 2, 4, 2, 4, 2, 4], [2, 128]]
WIDE = [[128, 2], [256, 4], [16, 16, 16], [2, 4, 8, 16, 32], [32, 16, 8, 4, 2]]
HUGE = [[64, 32, 4], [32, 64, 8]]
STRESS = [[512, 8], [64, 64, 16], [16] * 6, [4] * 16, [128, 16, 128], [2, 512]]

WIDEC = [[64, 2], [128, 2], [256, 4], [16, 16, 16], [32, 16, 8, 4, 2], [64, 32, 4], [512, 8], [2, 512], [64, 64, 16], [128, 8, 128], [4, 256, 4]]
WIDEC_TH = [[1024, 2], [4, 1024], [256, 256, 4], [128, 128, 128], [512, 64, 8], [2048, 16]]


def wide_family(types, thorough=False):
    """for completeness at fixed challenge vectors"""
    return [mixed(s, types, 60 + i) for i, s in enumerate(WIDEC + (WIDEC_TH if thorough else []))]


def family(types, thorough=False, prog="fast", kind="sound"):
    live = [t for t in types if t != 2]
    fam = [universal(t) for t in live]
    fam += [mixed(s, types, sd) for s, sd in (
        ([4, 4, 4], 1), ([2, 8, 4], 2), ([8, 2, 8], 3), ([4, 8, 2, 4], 4), ([8, 8, 8], 5), ([2, 2, 2, 2, 2], 6), ([16, 4], 7),
        ([4, 16, 2], 8))]
    # one-gate layers in every position (padded by the reader), dummy inputs
    fam += [mixed([1, 2, 2], types, 9, "one-input"), mixed([4, 1, 4], types, 10, "one-gate-middle"),
            mixed([4, 2, 1], live, 11, "one-output"), mixed([1, 1, 1], live, 12, "one-everywhere"),
            mixed([8, 4, 2], types, 13, "dummy-inputs", dummies=(1, 6))]
    fam += [Circuit("dummy-inputs-with-values", [[(3, None), (2, 7), (3, None), (2, 9)], [(0, 0, 1), (1, 2, 3), (0, 3, 2), (1, 0, 2)]])]
    fam += [junk(types)]
    if kind != "complete" or prog != "fast": fam += [pairs(types)]
    if prog == "fast":
        fam += [Circuit("large-constant-inputs", [[(3, 5), (3, 1899999999), (3, 65537), (3, None)], [(0, 0, 1), (1, 2, 3), (7, 3, 2), (9, 1, 2)], [(1, 0, 1), (1, 2, 3)]])]
    fam += [Circuit("one-output-" + str(t), [inputs(2), [(t, 1, 0 if t != 5 else 2)]]) for t in live]
    fam += [mixed(s, types, 50 + i) for i, s in enumerate(DEEP)]
    if kind != "complete":
        fam += [mixed(s, types, 60 + i) for i, s in enumerate(WIDE)]
        if thorough or kind == "eval" or prog == "trad": fam += [mixed(s, types, 70 + i) for i, s in enumerate(HUGE)]
        if thorough: fam += [mixed(s, types, 80 + i) for i, s in enumerate(STRESS)]
    if thorough:
        fam += [universal(t, 8) for t in live]
        fam += [mixed([4, 4, 4, 4], types, s) for s in range(20, 32)]
        fam += [mixed([8, 8, 8], types, s) for s in range(32, 38)]
        fam += [mixed([2, 16, 16], types, 41), mixed([8, 4, 8, 4, 8], types, 44)]
        if kind != "complete": fam += [mixed([16, 16, 4], types, 40), mixed([32, 8], types, 42), mixed([4, 32, 8], types, 43), mixed([16, 16], live, 45)]
    return fam
