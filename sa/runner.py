"""Check runner: builds the abstract program once, forks workers over the tasks,
collects records, prints verdicts, writes evidence."""
import json
import os
import pickle
import signal
import sys
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class EntryTimeout(BaseException):
    pass


def _alarm(*a):
    raise EntryTimeout()


class Log:
    """records of one check"""

    def __init__(self):
        self.recs = []
        self.counts = {}
        self.functions = set()
        self.calls = 0
        self.rules = {}

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def ok(self, rule, n=1):
        self.rules.setdefault(rule, [0, 0, 0])[0] += n

    def und(self, rule, entry, why):
        self.rules.setdefault(rule, [0, 0, 0])[1] += 1
        self.recs.append({"status": "undecided", "rule": rule, "entry": entry, "msg": why})

    def viol(self, rule, entry, construct, msg, chain=(), key=None):
        self.rules.setdefault(rule, [0, 0, 0])[2] += 1
        self.recs.append({"status": "violation", "rule": rule, "entry": entry, "construct": construct,
                          "msg": msg, "chain": list(chain), "key": key or "%s|%s" % (rule, keyloc(construct))})

    def guard(self, rule, entry, thunk, limit=120):
        """run thunk; engine trouble becomes an undecided obligation"""
        from .load import AnalysisBroken
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(limit)
        try:
            r = thunk()
            signal.alarm(0)
            return r
        except AnalysisBroken:
            raise
        except EntryTimeout:
            self.und(rule, entry, "analysis budget of %d s used up" % limit)
        except Exception as e:      # noqa
            tb = traceback.extract_tb(e.__traceback__)[-3:]
            self.und(rule, entry, "engine: %s: %s at %s" % (type(e).__name__, str(e)[:120],
                                                          ["%s:%d" % (os.path.basename(t.filename), t.lineno) for t in tb]))
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        return None

    def merge(self, o):
        self.recs += o.recs
        for k, v in o.counts.items():
            self.count(k, v)
        self.functions |= o.functions
        self.calls += o.calls
        for k, v in o.rules.items():
            r = self.rules.setdefault(k, [0, 0, 0])
            for i in range(3):
                r[i] += v[i]


def keyloc(construct):
    """file and function, without the line: stable under unrelated edits"""
    import re
    return re.sub(r":\d+", "", construct)


def run_tasks(I, tasks, fn, jobs):
    from .load import AnalysisBroken
    total = Log()
    pending = list(enumerate(tasks))
    running = {}
    results = {}
    broken = []
    while pending or running:
        while pending and len(running) < jobs:
            i, t = pending.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    log = Log()
                    try:
                        fn(I, t, log)
                        for f in I.analysed:
                            log.functions.add(f if isinstance(f, str) else str(f))
                        log.calls = I.nbodies
                        payload = ("ok", log)
                    except AnalysisBroken as e:
                        payload = ("broken", str(e))
                    except BaseException as e:   # noqa
                        payload = ("crash", "%s\n%s" % (e, traceback.format_exc()[-3000:]))
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(payload, f)
                except BaseException:   # noqa
                    code = 3
                finally:
                    os._exit(code)
            os.close(w)
            running[r] = (pid, i, t)
        import select
        rd, _, _ = select.select(list(running), [], [])
        for r in rd[:1]:
            pid, i, t = running.pop(r)
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                results[i] = ("crash", "worker for %r died" % (t,))
            else:
                results[i] = pickle.loads(data)
    for i, t in enumerate(tasks):
        kind, v = results[i]
        if kind == "ok":
            total.merge(v)
        elif kind == "broken":
            broken.append("%r: %s" % (t, v))
        else:
            total.und("task", repr(t), "analysis failed: " + v[-600:])
            total.count("failed tasks")
    return total, broken


def known():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                d = line[len("finding:"):].strip()
                pid, rest = d.split(" ", 1)
                key, what = rest.split(" :: ", 1)
                out.append((pid.split("=", 1)[1], key.split("=", 1)[1].strip(), what))
    return out


def main(prop, tier):
    sys.setrecursionlimit(60000)
    res = {}

    def body():
        try:
            res["code"] = check(prop, tier)
        except BaseException as e:   # noqa
            traceback.print_exc()
            res["code"] = 2
    threading.stack_size(2 ** 30)
    t = threading.Thread(target=body)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res.get("code", 2))


def check(prop, tier):
    import warnings
    warnings.simplefilter("ignore")
    from . import checks
    from .load import AnalysisBroken
    t0 = time.time()
    mod = checks.get(prop)
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    from .session import build
    try:
        I = build()
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN: %s" % e)
        return 2
    total, broken = run_tasks(I, mod.tasks(tier), lambda I, t, log: mod.run(I, t, log, tier), 8)
    if hasattr(mod, "finish"):
        mod.finish(I, total, tier)
    seen = {}
    for r in total.recs:
        if r["status"] == "violation":
            seen.setdefault(r["key"], []).append(r)
    und = [r for r in total.recs if r["status"] == "undecided"]
    kn = [(k, w) for p, k, w in known() if p == prop]
    viol, found = [], []
    for k, rs in sorted(seen.items()):
        hit = [w for kk, w in kn if kk == k]
        (found if hit else viol).append((k, rs, hit))
    oblig = sum(sum(v) for v in total.rules.values())
    decided = sum(v[0] + v[2] for v in total.rules.values())
    if not broken and decided < getattr(mod, "MIN", 1):
        broken.append("only %d obligations decided, at least %d expected" % (decided, mod.MIN))
    cov = {"explanation": mod.EXPLAIN,
           "rules": {k: {"holds": v[0], "undecided": v[1], "violated": v[2]} for k, v in sorted(total.rules.items())},
           "rule_text": mod.RULES,
           "obligations": oblig, "decided": decided, "undecided": len(und),
           "function_bodies_analysed": total.calls,
           "functions": sorted(total.functions)[:400],
           "function_count": len(total.functions),
           "modules": sorted(m.rel for m in I.prog.modules.values()),
           "source_digest": I.prog.digest(),
           "counts": total.counts,
           "undecided_obligations": [{"rule": u["rule"], "entry": u["entry"], "why": u["msg"][:300]} for u in und[:60]]}
    if broken:
        cov["broken"] = broken
    vs = [{"key": k, "where": rs[0]["construct"], "what": rs[0]["msg"], "entries": sorted({r["entry"] for r in rs})[:12],
           "path": rs[0]["chain"]} for k, rs, _ in viol]
    e = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
         "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": vs}
    if found:
        e["coverage"]["known_findings"] = [{"key": k, "what": h[0]} for k, _, h in found]
    with open(os.path.join(ev, prop + ".json"), "w") as f:
        json.dump(e, f, indent=1, default=str)
    print("%s [%s]: %d obligations, %d decided, %d undecided; %d function bodies of %d functions analysed in %.1f s" % (
        prop, tier, oblig, decided, len(und), total.calls, len(total.functions), time.time() - t0))
    for u in und[:8]:
        print("  undecided %s %s: %s" % (u["rule"], u["entry"], u["msg"][:160]))
    for k, rs, h in found:
        print("KNOWN-FINDING: property=%s %s" % (prop, h[0]))
    if viol:
        rp = os.path.join("evidence", prop + ".replay.json")
        with open(os.path.join(VERIF, rp), "w") as f:
            json.dump(vs, f, indent=1, default=str)
        for v in vs[:12]:
            print("  %s\n      at %s\n      rule %s, reached from %s" % (v["what"], v["where"], v["key"].split("|")[0],
                                                                      "; ".join(v["entries"][:3])))
            for c in v["path"][:8]:
                print("        via %s" % c)
        if len(vs) > 12:
            print("  and %d more, listed in %s" % (len(vs) - 12, rp))
        for v in vs[:1]:
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if broken:
        print("ANALYSIS-BROKEN:", "; ".join(broken)[:2000])
        return 2
    return 0
