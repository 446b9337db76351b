#!/usr/bin/env python3
"""Random small mutants of a source file against the checks: automut.py FILE CHECKS N SEED [FROM-TO] -> survivors (to be looked at by hand)."""
import os, re, random, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPS = [(r"(?<![<-])<(?![<=])", "<="), (r"<=", "<"), (r"==", "!="), (r"!=", "=="), (r"(?<!\+) \+ (?!\+)", " - "), (r" - ", " + "), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "3"),
       (r"&&", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r">>", "<<"), (r"<<(?= ?[a-z0-9])", ">>"), (r"(?<![->])>(?![>=])", ">="), (r"\bu\b", "v"), (r"\bv\b", "u"),
       (r"\bi\b", "j"), (r"\bj\b", "i"), (r"_0\b", "_1"), (r"_1\b", "_0"), (r"fhalf", "shalf"), (r"shalf", "fhalf"), (r"\*", "+"), (r"\bi\b", "(i+1)"), (r"\.a\b", ".b"), (r"\.b\b", ".a")]


def main():
    f, checks, n, seed = sys.argv[1], sys.argv[2].split(","), int(sys.argv[3]), int(sys.argv[4])
    src = open("/repo/" + f, encoding="utf-8", errors="surrogateescape", newline="").read().split("\n")
    a, b = map(int, sys.argv[5].split("-")) if len(sys.argv) > 5 else (1, len(src))
    cands, comment = [], False
    os.makedirs("/tmp/bnk", exist_ok=True); shutil.copy(VERIF + "/tools/kit_bn.h", "/tmp/bnk/bn.h")
    for k, l in enumerate(src):
        s = l.strip()
        if "/*" in s: comment = True
        skip = comment or s.startswith(("//", "#", "print", "cout", "cerr", "std::cout", "std::cerr", "assert", "fprintf(stderr", "import", "using")) or "chrono" in s or "total_time" in s or not s
        if "*/" in s: comment = False
        if skip or not a <= k + 1 <= b: continue
        for o, r in OPS:
            for m in re.finditer(o, l): cands.append((k, l[:m.start()] + r + l[m.end():]))
        if s.endswith(";") and "return" not in s and not re.match(r"^(auto|int|const|std::vector|prime_field::field_element\*? ?\*?\w+;|vector)\b", s): cands.append((k, ";"))
    rnd = random.Random(seed)
    rnd.shuffle(cands)

    def go(c):
        k, new = c
        d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
        try:
            subprocess.run(f"git -C /repo ls-files -z | (cd /repo && xargs -0 cp --parents -t {d} 2>/dev/null); mkdir {d}.v && cp -a {VERIF}/check.py {VERIF}/engine {VERIF}/harness {VERIF}/known_findings.txt {d}.v/", shell=True)
            open(f"{d}/{f}", "w", encoding="utf-8", errors="surrogateescape", newline="").write("\n".join(src[:k] + [new] + src[k + 1:]))
            if f.endswith(".cpp") and subprocess.run(["g++", "-std=c++11", "-w", "-fsyntax-only", "-maes", "-msse4.1", "-I", d + "/include", "-I", "/tmp/bnk", f"{d}/{f}"], stderr=subprocess.DEVNULL).returncode:
                return c, "-"
            res = []
            for ch in checks:
                try: r = subprocess.run([f"{d}.v/check.py", ch, "--quick"], env=dict(os.environ, LIBRA_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
                except subprocess.TimeoutExpired: res.append("T"); continue
                res.append({0: ".", 1: "X"}.get(r.returncode, "?") if "UNDECIDED" not in r.stdout or r.returncode else "u")
                if res[-1] == "X": break
            return c, "".join(res)
        finally:
            shutil.rmtree(d, ignore_errors=True); shutil.rmtree(d + ".v", ignore_errors=True)
    caught = 0
    with ThreadPoolExecutor(int(os.environ.get("AM_J", "3"))) as ex:
        for (k, new), res in ex.map(go, cands[:n]):
            if res == "-": n -= 1
            elif "X" in res: caught += 1
            else: print(f"{f}:{k+1} {res} | {src[k].strip()[:150]}  =>  {new.strip()[:150]}", flush=True)
    print(f"{f}: {caught} caught of {min(n, len(cands))} ({len(cands)} candidates)", flush=True)


main()
