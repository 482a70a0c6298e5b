"""Figures are released."""
from .common import *

EXPLAIN = ("Typestate analysis of matplotlib figures over every abstract path of every public operation: a figure opened through "
           "pyplot must be closed when the operation ends, or be part of its result.  Saving a figure is treated as an action "
           "that can fail, so the paths include the exceptional ones through finally, except and with.")
RULES = {"R1": "a figure opened during a call is closed or returned on every normal exit",
         "R2": "a figure opened during a call is closed on every exit by an exception"}
MIN = 1


def tasks(tier):
    return TASKS


def open_figs(st):
    return sorted(x[4:] for x in st.pc if x.startswith("fig:"))


def run(I, task, log, tier):
    def fn(c):
        s = sess(c)
        ret = {a.p[1] for v in reach_values(s, c.out.ret) for a in v if a.k == "extobj" and a.p[0].startswith(("figure", "axes"))} \
            if c.out.normal else set()
        if any(a.k == "top" for v in reach_values(s, c.out.ret) for a in v) and c.out.normal and open_figs(c.out.st):
            log.und("R1", c.entry, "the result may hold the figure")
        elif c.out.normal:
            bad = [x for x in open_figs(c.out.st) if x not in ret]
            for x in bad:
                log.viol("R1", c.entry, x, "a figure opened here is still open when the call has returned")
            if not bad:
                log.ok("R1")
        bad = False
        for e, st in c.out.raises:
            if e.kind not in ("ext", "user") and e.partial:
                continue
            for x in open_figs(st):
                bad = True
                log.viol("R2", c.entry, x, "a figure opened here stays open when %s at %s" % (
                    e.msg or e.name + " is raised", fmt(e.loc)))
        if not bad:
            log.ok("R2")
    foreach(I, task, log, "R1", every_case(I, task), fn)
