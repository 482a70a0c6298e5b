"""Computing has no side effects outside the process' own data."""
from .common import *

EXPLAIN = ("Effect analysis of every public operation and of importing the packages: printing, files, processes, the network, the "
           "environment, interpreter-wide settings of Python, sympy, numpy, pandas and matplotlib, threads, and figures.  Each "
           "such effect is a violation unless the operation exists to have it (the printing methods, plotting, exporting).")
RULES = {"R1": "an operation that computes has no effect outside the values it returns",
         "R2": "a printing or exporting operation has only that effect",
         "R3": "importing the packages has no such effect"}
MIN = 1
PRINTS = ("print", "print_partition", "draw", "draw_ascii_partition", "yd")
EXPORTS = ("export_png", "plot_partition")
TEXT = ("print", "stdout")


def tasks(tier):
    return TASKS + ["imports"]


def kind_of(c):
    nm = c.entry.split(": ")[-1].split("(")[0].split(".")[-1].split(" ")[0]
    return "print" if nm in PRINTS else "export" if nm in EXPORTS else "compute"


def run(I, task, log, tier):
    if task == "imports":
        bad = False
        for e in I.import_events:
            if e.kind in ("io", "fig+"):
                bad = True
                log.viol("R3", "import", where(e), "importing the package has the effect: %s" % "/".join(map(str, e.data)))
        if not bad:
            log.ok("R3", len(I.prog.modules))
        return

    def fn(c):
        k = kind_of(c)
        rule = "R1" if k == "compute" else "R2"
        bad = False
        for e in evs(c, "io", "fig+"):
            if k == "print" and e.kind == "io" and e.data[0] in TEXT:
                continue
            if k == "export" and (e.kind == "fig+" or e.data[0] in ("save", "file", "open")):
                continue
            bad = True
            what = "opens a figure" if e.kind == "fig+" else "effect: %s (%s)" % (e.data[0], e.data[1])
            log.viol(rule, c.entry, where(e), what, chain_of(e))
        if not bad:
            log.ok(rule)
    foreach(I, task, log, "R1", every_case(I, task), fn, partial=True)
