"""Run independent proof tasks in forked workers under one deadline."""
import multiprocessing as mp, os, resource, signal, time, traceback
from core import *


class Result:
    def __init__(self):
        self.secs, self.stats, self.violations, self.undecided, self.functions, self.notes = 0, Stats(), [], [], set(), []


MEM = 7 << 30


def _work(fn, conn, limit):
    os.setpgid(0, 0)
    signal.alarm(int(limit))
    try: resource.setrlimit(resource.RLIMIT_AS, (MEM, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except (ValueError, OSError): pass
    r = Result()
    try:
        out = fn()
        st, vio, und = out[0], out[1], out[2]
        r.stats, r.violations, r.undecided = st, vio, und
        if len(out) > 3: r.functions = set(out[3])
        if len(out) > 4: r.notes = list(out[4])
    except (BuildError, EncodeError) as e:
        r.undecided = [f"not encodable: {str(e)[:300]}"]
    except Exception as e:
        r.undecided = [f"engine error: {e!r} {traceback.format_exc()[-400:]}"]
    try:
        conn.send(r)
    except Exception as e:
        r2 = Result(); r2.undecided = [f"engine error: {e!r}"]; conn.send(r2)
    conn.close()


def run_tasks(tasks, budget, workers=8, stop_on_violation=True, limit=600):
    """tasks: [(name, fn)] -> [(name, Result)]; unfinished tasks come back undecided"""
    ctx = mp.get_context("fork")
    t0 = time.time()
    todo = list(tasks)
    live, done = [], []
    stop = False
    while todo or live:
        while todo and len(live) < workers and not stop:
            name, fn = todo.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_work, args=(fn, b, limit))
            p.start()
            b.close()
            live.append((name, p, a, time.time()))
        over = time.time() - t0 > budget
        if over or stop:
            for name, p, a, _ in live:
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: p.kill()
                p.join()
                if over and not stop:
                    r = Result(); r.undecided = [f"{name}: time budget exhausted"]; done.append((name, r))
            live = []
            if over and not stop:
                for name, fn in todo:
                    r = Result(); r.undecided = [f"{name}: not started within the time budget"]; done.append((name, r))
            break
        from multiprocessing.connection import wait
        wait([a for _, _, a, _ in live], timeout=0.5)
        nxt = []
        for name, p, a, ts in live:
            if a.poll():
                try: r = a.recv()
                except EOFError:
                    r = Result(); r.undecided = [f"{name}: worker ended (time or memory limit)"]
                p.join()
                r.secs = time.time() - ts
                done.append((name, r))
                if any(not (isinstance(d, dict) and d.get("ident")) for _, d in r.violations) and stop_on_violation: stop = True
            elif not p.is_alive():
                r = Result(); r.undecided = [f"{name}: worker ended (time or memory limit)"]
                done.append((name, r))
            else:
                nxt.append((name, p, a, ts))
        live = nxt
    return done
