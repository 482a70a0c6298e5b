"""Concurrent callers do not disturb each other."""
from .shared import *

EXPLAIN = ("Effect analysis of every computing operation for working data kept where a concurrent call can reach it: attributes of "
           "the object the operation runs on, module and class variables, function attributes, closures, mutable defaults, "
           "objects handed out by caches.  Two calls running at the same time overwrite each other's working data there.  "
           "Not reported: a complete, input-keyed cache entry stored in one step; data computed from the object alone; "
           "storage that is thread-local; writes inside a with-block on a lock.")
RULES = {"R1": "no attribute of the object, and no module, class, closure or function variable, holds data of a call in progress",
         "R2": "no list, set or object shared between calls is edited in place",
         "R3": "a cache that drops entries is never read by a separate look-up after a membership test"}
MIN = 1
PLOT = ("plot_partition", "export_png")


def tasks(tier):
    return TASKS


def run(I, task, log, tier):
    modes = Modes()

    def fn(c):
        nm = c.entry.split(": ")[-1].split("(")[0].split(".")[-1].split(" ")[0]
        if nm in PLOT:
            return
        modes.see(c)
        bad = set()
        for e in c.out.events:
            if e.kind == "aset":
                name, fl, owner, labels = e.data[:4]
                st = store_name(fl)
                if st is None:
                    continue
                p = {x for x in labels if x.startswith("P:")}
                if st == "recv":
                    p = {x for x in p if not x.startswith("P:self")}
                    if not p and not set_before(c, name):
                        continue
                elif not p:
                    continue
                if st != "recv" and (write_only(I.prog, name) or thread_local(I.prog, name)):
                    continue
                if guarded(I.prog, e):
                    log.und("R1", c.entry, "%s.%s is written under a lock" % (owner, name))
                    continue
                bad.add("R1")
                log.viol("R1", c.entry, where(e), "%s.%s is shared by concurrent calls and is given a value of this one%s" % (
                    owner, name, " (" + ", ".join(sorted(x[2:] for x in p)) + ")" if p else ""), chain_of(e))
            elif e.kind == "mutate":
                op, fl, kind, attr = e.data
                st = store_name(fl)
                if kind == "dict":
                    continue
                if st is None:
                    nm2 = [str(x)[7:] for x in fl if str(x).startswith("keptas:")]
                    if kind in ("list", "set") and nm2 and not any(
                            write_only(I.prog, x) or thread_local(I.prog, x) for x in nm2) and not guarded(I.prog, e):
                        bad.add("R2")
                        log.viol("R2", c.entry, where(e), "%s edits a %s after it was put where a concurrent call finds it (%s)" % (
                            op, kind, nm2[0]), chain_of(e))
                    continue
                if kind in ("list", "set", "opaque") or st.startswith("cached:") and kind not in ("frame", "module"):
                    if st.startswith("global:") and (write_only(I.prog, st) or thread_local(I.prog, st)):
                        continue
                    if guarded(I.prog, e):
                        log.und("R2", c.entry, "a shared %s is edited under a lock" % kind)
                        continue
                    bad.add("R2")
                    log.viol("R2", c.entry, where(e), "%s edits a %s that concurrent calls share (%s)" % (
                        op, kind, "kept by the object" if st == "recv" else st.replace("global:", "")), chain_of(e))
        for e in c.out.events:
            if e.kind != "dload" or e.data[2] != "item":
                continue
            st = store_name(e.data[0])
            if st is None or not st.startswith("global:") or guarded(I.prog, e) or in_try(I.prog, e.loc, ("KeyError", "LookupError", "Exception")):
                continue
            if thread_local(I.prog, st):
                continue
            d = [x for x in drop_sites(I.prog, st) if not in_with(I.prog, x)]
            if d:
                bad.add("R3")
                log.viol("R3", c.entry, where(e), "the entry looked up here may just have been dropped by a concurrent call (%s)" % fmt(d[0]),
                         chain_of(e))
        for r in ("R1", "R2", "R3"):
            if r not in bad:
                log.ok(r)
    foreach(I, task, log, "R1", _labelled(I, task) if task != "values" else every_case(I, task), fn, partial=True)
    modes.races(I, log, "R1")


def _labelled(I, task):
    yield from all_cases(I, task, fields=True)
    yield from table_cases(I, task)
    yield from table_methods(I, task)


def set_before(c, name):
    s = sess(c)
    r = c.sp.gr if isinstance(c, Case) else c.recv
    if r is None:
        return False
    o = s.I.get(s.st0, next(iter(r)).p)
    return o is not None and bool(o.fields.get(name))
