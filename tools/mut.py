#!/usr/bin/env python3
"""Run checks against mutated copies of /repo (in a private mount namespace, so that /repo itself is untouched).

  mut.py run MUTFILE [NAME...]     for every mutant: checks named with it -> caught / missed
  mut.py patch MUTFILE NAME OUT    write patch.diff
  mut.py confirm SEEDED_DIR        build, tests, demo with and without the patch, checks
MUTFILE is Python: M = {name: (checks, [(file, old, new), ...])}"""
import os, subprocess, sys, shutil, tempfile, json
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)


def edit(root, edits):
    for f, old, *new in edits:
        p = os.path.join(root, f)
        b = open(p, "rb").read()
        crlf = b"\r\n" in b
        if callable(old):  # a rewriting function over the LF text
            t = b.decode().replace("\r\n", "\n"); t2 = old(t)
            if t2 == t: raise SystemExit(f"{f}: rewrite changed nothing")
            open(p, "wb").write((t2.replace("\n", "\r\n") if crlf else t2).encode())
            continue
        new, = new
        o, n = old.encode(), new.encode()
        cands = [(o, n)]
        if crlf and b"\n" in o + n: cands = [(o.replace(b"\n", b"\r\n"), n.replace(b"\n", b"\r\n"))] + cands
        for o2, n2 in cands:
            c = b.count(o2)
            if c == 1: break
        else:
            raise SystemExit(f"{f}: {c} matches for {old!r}")
        open(p, "wb").write(b.replace(o2, n2))


def copy():
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    subprocess.run(["cp", "-a", os.environ.get("MUT_BASE", "/repo"), d + "/repo"], check=True)
    return d


def inside(d, script, timeout=900):
    r = subprocess.run(["unshare", "-Urm", "bash", "-c", f"mount --bind {d}/repo /repo && {script}"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


def run_one(name, checks, edits, tier="--quick"):
    d = copy()
    try:
        edit(d + "/repo", edits)
        out = []
        # evidence must not be overwritten: use a copy of /verif
        subprocess.run(f"mkdir {d}/v && cp -a {VERIF}/check.py {VERIF}/engine {VERIF}/harness {VERIF}/known_findings.txt {d}/v/", shell=True, check=True)
        for c in checks:
            rc, o = inside(d, f"cd {d}/v && ./check.py {c} {tier}")
            tail = [l for l in o.splitlines() if l.startswith(("VIOLATION", "UNDECIDED", "  ", "["))]
            out.append((c, rc, tail[:6] + tail[-1:]))
        return name, out
    except SystemExit as e:
        return name, [("edit", 2, [str(e)])]
    finally:
        shutil.rmtree(d)


def main():
    if sys.argv[1] == "run":
        ns = {}
        exec(open(sys.argv[2]).read(), ns)
        M = ns["M"]
        names = [a for a in sys.argv[3:] if not a.startswith("--")] or list(M)
        with ThreadPoolExecutor(3) as ex:
            for name, out in ex.map(lambda n: run_one(n, *M[n]), names):
                for c, rc, tail in out:
                    print(f"{name:40s} {c} {'CAUGHT' if rc == 1 and any('VIOLATION' in t for t in tail) else 'missed' if rc == 0 else 'ERROR'}")
                    for t in tail: print("      " + t[:230])
                sys.stdout.flush()
    elif sys.argv[1] == "patch":
        ns = {}
        exec(open(sys.argv[2]).read(), ns)
        d = copy()
        edit(d + "/repo", ns["M"][sys.argv[3]][1])
        r = subprocess.run(["git", "-C", d + "/repo", "diff", "--binary"], stdout=subprocess.PIPE)
        open(sys.argv[4], "wb").write(r.stdout)
        shutil.rmtree(d)
    elif sys.argv[1] == "confirm":
        s = os.path.abspath(sys.argv[2])
        d = copy()
        try:
            shutil.copytree(s, d + "/s")
            for x in ("patch.diff", "meta.json"): os.remove(f"{d}/s/{x}")
            rc0, o0 = inside(d, f"bash /opt/vp/build.sh >/dev/null 2>&1; cd /repo && bash {d}/s/demo.sh")
            print("demo without patch:", rc0, o0[-300:])
            r = subprocess.run(["git", "-C", d + "/repo", "apply", s + "/patch.diff"]); print("apply:", r.returncode)
            rc, o = inside(d, f"bash /opt/vp/test.sh {d}/res.json", 1500)
            print("tests:", o.count("\nPASS ") + o.startswith("PASS "), "pass"); print("build failed" if "build failed" in o else "")
            rc1, o1 = inside(d, f"cd /repo && bash {d}/s/demo.sh")
            print("demo with patch:", rc1, o1[-400:])
            print("CONFIRMED" if rc0 == 0 and rc1 != 0 and o.count("PASS ") >= 67 else "NOT CONFIRMED", s)
        finally:
            shutil.rmtree(d)


main()
