"""Objects own their data."""
from .common import *

EXPLAIN = ("Ownership (may-alias) analysis.  Every list reachable from an argument is tagged as the caller's, every list reachable "
           "from the object an operation runs on as that object's, every list in module or cache storage as shared.  After the "
           "abstract call, everything reachable from the result is searched for tagged lists, dictionaries and sets.")
RULES = {"R1": "a constructed value holds no list of the caller's: editing the list afterwards does not change the value",
         "R2": "a result holds no list of the object it was asked from: editing the result does not change the object",
         "R3": "a result holds no list kept in module, class or cache storage, and no argument list is kept there"}
MIN = 1


def tasks(tier):
    return TASKS


def run(I, task, log, tier):
    def fn(c):
        if not c.out.normal:
            return
        s = sess(c)
        bad = set()
        nm = c.entry.split(": ")[-1].split("(")[0]
        nm = nm.split(".", 1)[-1] if isinstance(c, Case) else nm
        same = argument_lists(c, s)
        for site, o, path in holdings(s, c.out.ret):
            if getattr(c, "kind", "").startswith("table") and path[-1:] == ("gr",):
                continue
            fl = [str(x) for x in o.flags]
            a = sorted(x[4:] for x in fl if x.startswith("arg:"))
            where_ = c.entry + "".join("." + str(p) for p in path)
            if a:
                bad.add("R1")
                log.viol("R1", c.entry, src(I, site, where_), "the result holds the very %s the caller passed as %r" % (o.kind, a[0]),
                         key="R1|%s|%s" % (nm, ".".join(path)))
            if any(x == "recv" for x in fl):
                bad.add("R2")
                log.viol("R2", c.entry, src(I, site, where_), "the result holds a %s that belongs to the object it was asked from" % o.kind,
                         key="R2|%s|%s" % (nm, ".".join(path)))
            if any(x.startswith(("global:", "cached:", "kept:global", "kept:cached", "kept:recv")) for x in fl):
                bad.add("R3")
                log.viol("R3", c.entry, src(I, site, where_), "the result holds a %s kept in shared storage (%s)" % (
                    o.kind, next(x for x in fl if x.startswith(("global:", "cached:", "kept:")))), key="R3|%s|%s" % (nm, ".".join(path)))
        # argument lists that ended up in storage which outlives the call
        for a in same:
            o = s.I.get(c.out.st, a)
            if o is not None and any(str(x).startswith("kept:") for x in o.flags):
                bad.add("R3")
                log.viol("R3", c.entry, c.entry, "a %s of the caller is kept in storage that outlives the call" % o.kind,
                         key="R3|keeps|%s" % nm)
        for r in RULES:
            if r not in bad:
                log.ok(r)
    foreach(I, task, log, "R1", every_case(I, task, helpers=True), fn)


def argument_lists(c, s):
    out = set()
    for v in c.args or ():
        for x in reach_values(s, v if not isinstance(v, tuple) else v[1]):
            for a in x:
                if a.k == "ref":
                    o = s.I.get(s.st, a.p)
                    if o is not None and o.kind in ("list", "dict", "set"):
                        out.add(a.p)
    return out


def holdings(s, v):
    """(site, Obj, path) of every list/dict/set reachable from v"""
    seen = set()
    work = [(v, ())]
    while work:
        x, path = work.pop()
        for a in x:
            if a.k != "ref" or a.p in seen:
                continue
            o = s.I.get(s.st, a.p)
            if o is None or o.kind in ("module", "frame", "classns"):
                continue
            seen.add(a.p)
            if o.kind in ("list", "dict", "set"):
                yield a.p, o, path
            for k, f in (o.fields or {}).items():
                work.append((f, path + (str(k),)))
            for e in (o.items or ()):
                work.append((e, path))
            work.append((o.elem, path))
            work.append((o.keyl, path))


def src(I, site, default):
    return default
