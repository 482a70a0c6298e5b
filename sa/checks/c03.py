"""Results depend on the arguments only."""
from .common import *

EXPLAIN = ("Taint analysis of every public operation.  Values that vary between runs of the same program are tagged where they "
           "arise: the iteration order of sets, hash() of anything containing text, id(), default reprs, clocks, random "
           "numbers, the environment.  A tag that reaches a value returned to the caller, or text that is printed, is a "
           "violation; sorting removes the order tag, and data kept in a commutative sum does not carry it.")
RULES = {"R1": "nothing that varies between runs reaches a returned value",
         "R2": "nothing that varies between runs reaches printed text"}
MIN = 1
SKIP = ("__hash__",)


def tasks(tier):
    return TASKS


def run(I, task, log, tier):
    def fn(c):
        if c.entry.split(".")[-1].split("(")[0].split(" ")[0] in SKIP:
            return
        s = sess(c)
        bad = False
        if c.out.normal:
            nd = sorted({x[7:] for x in all_labels(s, c.out.ret) if str(x).startswith("nondet:")})
            for x in nd:
                bad = True
                why, loc = x.split("@", 1)
                log.viol("R1", c.entry, loc, "the result depends on %s" % why)
            for v in reach_values(s, c.out.ret, attrs=False):
                for a in v:
                    o = s.I.get(s.st, a.p) if a.k == "ref" else None
                    if o is not None and o.ordt and o.kind in ("list", "tuple"):
                        bad = True
                        log.viol("R1", c.entry, c.entry, "the order of the returned list is the order of a set",
                                 key="R1|%s" % c.entry.split(": ")[-1].split("(")[0].split(".", 1)[-1])
        if not bad:
            log.ok("R1")
        pn = [e for e in c.out.events if e.kind == "printnd"]
        for e in pn:
            log.viol("R2", c.entry, where(e), "printed text depends on %s" % ", ".join(x[7:] for x in e.data[0]), chain_of(e))
        if not pn:
            log.ok("R2")
    foreach(I, task, log, "R1", every_case(I, task), fn)
