"""Quantum parameters appear where, and only where, they belong."""
from .common import *

EXPLAIN = ("Information flow of quantum parameters: every place that creates a quantum parameter tags it, the tags follow all "
           "arithmetic and text, and inputs carry none.  The tags on the result of every operation are compared with the "
           "parameters of the space, separately for the regimes of k in which the rules differ.")
RULES = {"R1": "a classical operation introduces no quantum parameter",
         "R2": "a quantum operation introduces only the parameters of its space: q1 and q2 on even orthogonal spaces with k = 1, "
               "q everywhere else",
         "R3": "a quantum operation can introduce the parameters of its space",
         "R4": "a multiplication table uses the product it stands for",
         "R5": "each cell of a multiplication table is the product of the classes of its row and column"}
MIN = 100
NQ = Sym(["num", "schur", "add", "mul"], "sum", None, ("part?",))
QUANTUM = ("qpieri", "qact", "qgiambelli", "qmult", "qtoS", "qmult_rh")


def tasks(tier):
    return ALLTASKS


def unknown(s, v):
    """could the value hold a symbol whose creation was not seen"""
    for x in reach_values(s, v):
        for a in x:
            if a.k == "top":
                return True
            if a.k == "sym" and (a.p.form == "unk" or a.p.part is None):
                return True
    return False


def run(I, task, log, tier):
    fam, i = task
    reg = regimes(fam)[i]
    want = {"q1", "q2"} if reg[0] == "D k=1" else {"q"}

    def tags(s, v):
        return {str(l)[2:] for l in all_labels(s, v) if str(l).startswith("q:")}

    def judge(s, out, quantum, e, r1, r2, r3, key):
        if not out.normal:
            return
        q = tags(s, out.ret)
        if not quantum:
            if q:
                log.viol(r1, e, e.split("(")[0], "a classical result can contain %s" % ", ".join(sorted(q)), key="%s|%s" % (r1, key))
            else:
                log.ok(r1)
            return
        if q - want:
            log.viol(r2, e, e.split("(")[0], "the result can contain %s, which is not a parameter of this space" % ", ".join(
                sorted(q - want)), key="%s|%s|%s" % (r2, key, reg[0]))
        else:
            log.ok(r2)
        if reg[0] in ("A m=0", "A k=0"):
            return          # a point: no corrections
        if q >= want:
            log.ok(r3)
        elif unknown(s, out.ret):
            log.und(r3, e, "the result holds symbols of unknown origin")
        else:
            log.viol(r3, e, e.split("(")[0], "the result never contains %s: the quantum corrections are missing" % ", ".join(
                sorted(want - q)), key="%s|%s|%s" % (r3, key, reg[0]))

    def fn(c):
        judge(c.sp.s, c.out, c.op in QUANTUM, c.entry, "R1", "R2", "R3", c.op)

    def gen():
        for op in OPS:
            if op == "schub_type" or unsupported(fam, op):
                continue
            for cb in combos(op, fam):
                if set(cb) <= {"expr", "posint", "list", "schur", "lc"}:
                    yield lambda op=op, cb=cb: case(I, fam, reg, op, cb, sym=NQ)
    foreach(I, task, log, "R1", gen(), fn)

    def tab(c):
        t = c.entry.split(": ")[1].split("(")[0]
        judge(c.s, c.out, t == "QMultTable", c.entry, "R4", "R4", "R4", t)
    foreach(I, task, log, "R4", table_cases(I, task), tab)
    with I.named(9):
        for t, op in (("MultTable", "mult"), ("QMultTable", "qmult")):
            log.guard("R5", "%s: %s" % (reg[0], t), lambda: cells(I, log, fam, reg, t, op), 60)
            I.forget_results()


def cells(I, log, fam, reg, t, op):
    """the table of a space that has two classes, each standing for any class"""
    from .c12 import W
    from .algebra import opaque_list, poly_of, comparable
    e = "%s: %s" % (reg[0], t)
    w = W(I, fam, reg, True)
    s = w.s
    names = [made(s, SCH, opaque_list(s, nm)) for nm in ("A", "B")]

    def two(interp, fn, bound, node, st):
        out = []
        for nm in ("A", "B"):
            ln = Lin.sym("len_" + nm)
            st.cons = st.cons.add_ge(ln)
            lst = interp.new_list(st, s.node(), None, AInt(None), ln, vn=("arg", nm))
            out.append(interp.call(s.cls(*SCH), [lst], {}, s.node(), st))
        return interp.new_list(st, s.node(), out)
    f = I.class_lookup(next(iter(w.sp.cls)).p, "schub_classes", s.st)
    for a in f or ():
        if a.k == "fn":
            I.hooks[a.p.node] = two
    calls = I.watch["pandas.DataFrame"] = []
    try:
        out = s.call(s.cls("schubertpy.mult_table", t), [w.sp.gr])
    finally:
        I.watch.pop("pandas.DataFrame")
    if not out.normal or len(calls) != 1:
        return log.und("R5", e, "the table is not built by one call of DataFrame")
    args, kwargs, st = calls[0]
    data = args[0] if args else kwargs.get("data")
    rows = items_of(I, st, data)
    if rows is None or len(rows) != 2:
        return log.und("R5", e, "the cells are not known one by one")
    want = {}
    for i in range(2):
        for j in range(2):
            want[i, j] = w.poly(w.call(op, names[i], names[j]))
    for i, r in enumerate(rows):
        row = items_of(I, st, r)
        if row is None or len(row) != 2:
            log.und("R5", e, "the cells are not known one by one")
            continue
        for j, v in enumerate(row):
            log.count("cells compared")
            kinds = {a.k for a in v}
            if kinds and kinds <= {"none", "int", "bool", "str"}:
                log.viol("R5", e, e, "the cell of row %d and column %d holds no product" % (i, j), key="R5|%s|cell" % t)
                continue
            s2 = s
            s2.st = st
            p = poly_of(s2, v)
            if p is None or want[i, j] is None:
                log.und("R5", e, "a cell is not known as a polynomial")
            elif p in (want[i, j], want[j, i]):
                log.ok("R5")
            elif comparable(p, want[i, j], I) and comparable(p, want[j, i], I):
                log.viol("R5", e, e, "the cell of row %d and column %d is not the product of its classes" % (i, j), key="R5|%s|cell" % t)
            else:
                log.und("R5", e, "a cell rests on other computations")


def items_of(I, st, v):
    if v is None or len(v) != 1:
        return None
    a = next(iter(v))
    o = I.get(st, a.p) if a.k == "ref" else None
    return None if o is None or o.kind not in ("list", "tuple") else o.items
