"""No public operation modifies what the caller handed in, or the object it was called on."""
from .common import *

EXPLAIN = ("Abstract interpretation of every public operation (all four families, every regime of the dimensions, every "
           "declared input form), of the value classes, the multiplication tables and the drawing functions.  Everything "
           "reachable from an argument is tagged as the caller's, everything reachable from the receiver as its own; each "
           "abstract store, method call or deletion that changes a tagged object is a violation, reported with its path.")
RULES = {"R1": "no store into, and no mutating call on, a list/dict/set/object reachable from an argument",
         "R2": "no attribute the constructor set is rebound, and no list the constructor stored is changed, by a method "
               "(a dictionary, and an attribute the constructor left None, are treated as a cache and judged by C02)"}
MIN = 1


def tasks(tier):
    return TASKS


def run(I, task, log, tier):
    def fn(c):
        s = sess(c)
        bad1 = bad2 = False
        for e in evs(c, "mutate"):
            op, fl, kind, attr = e.data
            args = sorted(x[4:] for x in fl if str(x).startswith("arg:"))
            if args:
                bad1 = True
                log.viol("R1", c.entry, where(e), "%s%s changes the %s the caller passed as %r" % (
                    op, " of ." + attr if attr else "", kind, args[0]), chain_of(e))
            elif getattr(c, "kind", "") != "partial" and "recv" in fl and kind not in ("dict", "frame", "module") and not fresh_attr(c, attr, op, kind):
                bad2 = True
                log.viol("R2", c.entry, where(e), "%s%s changes the %s it was called on" % (
                    op, " of ." + attr if attr else "", kind), chain_of(e))
        if not bad1:
            log.ok("R1")
        if not bad2:
            log.ok("R2")
    foreach(I, task, log, "R1", every_case(I, task, helpers=True), fn, partial=True)


def fresh_attr(c, attr, op, kind):
    """the store adds an attribute the constructor did not set (a cache: see C02)"""
    if not attr:
        return False
    b = before_of(c)
    if b is None:
        return False
    v = b.get(attr)
    return v is None or (v and all(a.k == "none" for a in v))


def before_of(c):
    s = sess(c)
    r = c.sp.gr if isinstance(c, Case) else c.recv
    if r is None:
        return None
    o = s.I.get(s.st0, next(iter(r)).p) if getattr(s, "st0", None) is not None else None
    return o.fields if o is not None else None
