"""Every declared input form is accepted and used."""
from .common import *

EXPLAIN = ("Abstract execution of every public operation for every declared form of every argument (text, expression, combination, "
           "class, list, pair of lists) and for every shape of expression (a number, a quantum parameter, a class, a product, a "
           "sum).  A form for which every abstract path ends in an exception is a violation, and so is a result on which the "
           "argument has no influence.")
RULES = {"R1": "an operation has a normal outcome for every declared form of its arguments",
         "R2": "the result depends on every argument",
         "R3": "no path runs into a mismatch of kinds (missing attribute, bad operand, wrong arity, undefined name)"}
MIN = 1
P1 = ("part?",)
SHAPES = {"number": Sym(["num"], "mono", None, ()), "quantum parameter": Sym(["q"], "mono", None, ()),
          "class": Sym(["schur"], "mono", None, P1), "sum": Sym(["add"], "sum", None, P1),
          "product": Sym(["mul"], "mono", None, P1)}
ZERO_ARG_VALUES = ("__hash__",)


def tasks(tier):
    return TASKS


KINDS = ("str", "list", "tuple", "dict", "set", "sym", "LinearCombination", "Schur", "Partition", "None (returned")
ARITY = ("positional arguments", "multiple values", "unexpected keyword", "missing required", "is not callable", "takes no arguments")


def mismatch(x):
    """an error that follows from the kinds of values alone, not from their magnitude"""
    if x.kind != "synth":
        return False
    if x.name in ("NameError", "UnboundLocalError"):
        return not x.partial
    if x.name == "AttributeError":
        return x.msg.startswith(KINDS)
    if x.name == "TypeError":
        if any(t in x.msg for t in ARITY):
            return True
        if x.msg.startswith("unsupported operand"):
            a, _, b = x.msg.split(": ", 1)[1].partition(" and ")
            return a.startswith(KINDS) or b.startswith(KINDS)
    return False


def run(I, task, log, tier):
    def fn(c, what=""):
        if isinstance(c, Case) and unsupported(c.fam, c.op):
            return
        if not isinstance(c, Case) and (c.kind == "operator" and " ** " in c.entry
                                        or c.entry in ("Schur.plot_partition of a pair", "Schur.export_png of a pair")):
            return          # not declared: powers of classes, drawings of pairs
        e = c.entry + what
        mm = False
        for x, _ in c.out.raises:
            if mismatch(x) and not (not isinstance(c, Case) and c.kind == "operator"):
                mm = True
                log.viol("R3", e, fmt(x.loc), "%s: %s" % (x.name, x.msg))
        if not mm:
            log.ok("R3")
        if not c.out.normal:
            x, _ = c.out.raises[0]
            log.viol("R1", e, fmt(x.loc) if x.loc else e, "every path ends in an exception: %s" % "; ".join(
                sorted({"%s%s" % (r.name, ": %s" % r.msg if r.msg else "") for r, _ in c.out.raises})[:3]),
                key="R1|%s" % e.split(".", 1)[-1])
            return
        log.ok("R1")
        if not isinstance(c, Case) or c.op not in OPS or ">=" not in c.label:
            return
        s = sess(c)
        labels = all_labels(s, c.out.ret) | {l for v in [c.out.ret] for a in v for l in a.l} | set(pc_labels(c))
        for (nm, _) in OPS[c.op]:
            if nm == "k" or what and nm not in ("lc", "lc2"):
                continue        # type_swap keeps k for compatibility; a number acted on has no special classes
            if any(a.k == "top" for a in c.out.ret):
                log.und("R2", e, "result not known")
            elif "P:" + nm in labels:
                log.ok("R2")
            else:
                log.viol("R2", e, e, "the result does not depend on the argument", key="R2|%s|%s" % (e.split(".", 1)[-1], nm))
    foreach(I, task, log, "R1", every_case(I, task), fn)
    if task == "values":
        return
    fam, i = task
    reg = regimes(fam)[i]

    def shapes():
        for op, ps in OPS.items():
            if op in ("schub_type", "qmult_rh") or unsupported(fam, op) or op == "pair2part":
                continue
            if op == "qmult_rh" and fam != "A":
                continue
            combo = tuple("posint" if f == ("posint",) else "expr" for _, f in ps)
            for nm, sy in SHAPES.items():
                def th(op=op, combo=combo, sy=sy, nm=nm):
                    c = case(I, fam, reg, op, combo, sym=sy)
                    c.args = (c.args, nm)
                    return c
                yield th
    foreach(I, task, log, "R1", shapes(), lambda c: fn(c, " of a " + c.args[1]))


def pc_labels(c):
    try:
        return [x for x in c.out.st.pc if str(x).startswith("P:")]
    except Exception:
        return []
