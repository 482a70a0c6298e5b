"""Results are fully expanded."""
from .common import *

EXPLAIN = ("Shape analysis of symbolic expressions: every abstract expression carries the shape it is known to have (one monomial, "
           "a sum of monomials, not expanded, unknown), through sympy's constructors, expand, subs, printing and parsing.  An "
           "operation whose result can be left as a product with a sum inside is a violation.")
RULES = {"R1": "the result of an operation on expanded input is a sum of monomials",
         "R2": "the result of an operation that computes products is a sum of monomials whatever the shape of its input"}
MIN = 1
# operations that hand their argument back where there is nothing to do keep its shape
KEEP = ("type_swap", "miami_swap")


def tasks(tier):
    return ALLTASKS + ["values"]


def run(I, task, log, tier):
    def fn(c, rule="R1"):
        if isinstance(c, Case) and unsupported(c.fam, c.op) or not c.out.normal:
            return
        s = sess(c)
        for o in lcs(s, c.out.ret):
            for v in o.fields.values():
                for a in v:
                    if a.k != "sym":
                        continue
                    if a.p.form == "unexp":
                        e = c.entry if isinstance(c, MCase) else c.entry.split("(")[0]
                        log.viol(rule, c.entry, e, "the result can be a product that was never expanded",
                                 key="%s|%s" % (rule, e.split(": ")[-1].split(".", 1)[-1]))
                    elif a.p.form == "unk":
                        log.und(rule, c.entry, "shape of the result not known")
                    else:
                        log.ok(rule)
    if task == "values":
        def gen():
            for th in value_cases(I):
                yield th
        foreach(I, task, log, "R1", gen(), lambda c: fn(c) if c.entry.endswith((".apply", ".apply2")) else None)
        return
    foreach(I, task, log, "R1", every_case(I, task, [o for o in OPS if o != "schub_type"]), fn)
    fam, i = task
    reg = regimes(fam)[i]
    raw = Sym(["mul", "pow"], "unexp", None, ("part?",))

    def gen():
        for op in OPS:
            if op == "schub_type" or op in KEEP:
                continue
            for c in combos(op, fam):
                if set(c) <= {"expr", "posint"} or set(c) == {"lc", "expr"}:
                    yield lambda op=op, c=c: case(I, fam, reg, op, c, sym=raw)
    foreach(I, task, log, "R2", gen(), lambda c: fn(c, "R2"))


def lcs(s, v):
    for a, o in result_objs(s, v):
        if o is not None and o.kind == "inst" and getattr(o.cls, "name", "") == "LinearCombination":
            yield o
