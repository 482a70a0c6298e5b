#!/usr/bin/env python3
"""Development aid: several checks over one shared analysis of $VERIF_REPO.  multi.py C01,C02,..."""
import os
import sys
import threading
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)


def key(th):
    import types

    def k(x):
        if isinstance(x, types.FunctionType):
            return (x.__code__.co_filename, x.__code__.co_firstlineno, tuple(map(k, x.__defaults__ or ())),
                    tuple(k(c.cell_contents) for c in (x.__closure__ or ())))
        if isinstance(x, (str, int, bool, type(None))):
            return x
        if isinstance(x, (tuple, list)):
            return tuple(map(k, x))
        return repr(x) if not type(x).__module__.startswith("sa.interp") else 0
    return k(th)


def main():
    from sa import checks, runner
    from sa.checks import common
    from sa.session import build
    names = sys.argv[1].split(",")
    mods = {n: checks.get(n) for n in names}
    I = build()
    cache = {}
    orig = common.foreach

    def shared(I, task, log, rule, gen, fn, limit=None, partial=False):
        def wrap(th):
            kk = key(th)

            def go():
                if I.hooks or I.post:
                    return th()
                if kk not in cache:
                    cache[kk] = th()
                return cache[kk]
            go.__defaults__ = None
            return go
        return orig(I, task, log, rule, (wrap(t) for t in gen), fn, limit, partial)
    for m in mods.values():
        if getattr(m, "foreach", None) is orig:
            m.foreach = shared
    tasks = []
    for m in mods.values():
        for t in m.tasks("quick"):
            if t not in tasks:
                tasks.append(t)

    def fn(I, t, log):
        for n, m in mods.items():
            if t not in m.tasks("quick"):
                continue
            l = runner.Log()
            m.run(I, t, l, "quick")
            for r in l.recs:
                r["prop"] = n
            log.recs += l.recs
    t0 = time.time()
    total, broken = runner.run_tasks(I, tasks, fn, 8)
    for n, m in mods.items():
        if hasattr(m, "finish"):
            l = runner.Log()
            l.recs = [r for r in total.recs if r.get("prop") == n]
            k = len(l.recs)
            m.finish(I, l, "quick")
            for r in l.recs[k:]:
                r["prop"] = n
            total.recs += l.recs[k:]
    seen = {}
    und = {}
    for r in total.recs:
        p = r.get("prop", "?")
        if r["status"] == "violation":
            seen.setdefault((p, r["key"]), r)
        else:
            und[p] = und.get(p, 0) + 1
    for (p, k), r in sorted(seen.items()):
        print("   %s %s :: %s @ %s [%s]" % (p, k.split("|")[0], r["msg"][:110], r["construct"][:60], r["entry"][:50]))
    print("   undecided:", und, "broken:", broken, "%.0f s" % (time.time() - t0))
    sys.stdout.flush()
    os._exit(0)


sys.setrecursionlimit(60000)
threading.stack_size(2 ** 30)
t = threading.Thread(target=main)
t.start()
t.join()
