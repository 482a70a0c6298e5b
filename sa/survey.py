"""Drives every public operation over every family, regime and declared input form."""
from .entries import *

ALLTASKS = [(f, i) for f in "ACBD" for i in range(len(regimes(f)))]


def combos(op, fam):
    ps = OPS[op]
    if op == "qmult_rh" and fam != "A":
        return []
    if len(ps) == 1:
        return [(x,) for x in ps[0][1]]
    if op == "type_swap":
        return [(x, "posint") for x in ps[0][1]]
    if ps[0][0] == "i":
        return [("posint", x) for x in ps[1][1]]
    out = [(x, "expr") for x in ps[0][1]]
    return out + [("expr", x) for x in ps[1][1] if x != "expr"]


class Case:
    __slots__ = ("sp", "op", "combo", "args", "out", "fam", "label")

    @property
    def entry(self):
        return "%s.%s(%s)" % (self.label, self.op, ", ".join(self.combo))


def case(I, fam, reg, op, combo, fields=False, sym=LIN, args=None):
    c = Case()
    c.fam = fam
    c.label = reg[0]
    c.sp = Space(I, fam, reg)
    if fields:
        label_fields(c.sp)
    c.op = op
    c.combo = combo
    if args is not None:
        c.args = args(c.sp)
    elif op in OPS:
        c.args = []
        for k, p in zip(combo, OPS[op]):
            s = sym
            if op == "pair2part":
                k = {"schur": "pairschur"}.get(k, k)
                s = Sym(sym.cls, sym.form, None, ("pair?",))
            c.args.append(arg(c.sp.s, k, p[0], s))
    else:
        c.args = []
    c.out = c.sp.s.method(c.sp.gr, op, c.args)
    return c


def label_fields(sp):
    o = sp.s.obj(sp.gr)
    a, = sp.gr
    f = {}
    for k, v in o.fields.items():
        if all(x.k in ("int", "str") for x in v):
            v = frozenset(x.with_l(x.l | frozenset(["P:self." + k])) for x in v)
        f[k] = v
    sp.s.st.heap[a.p] = o.rep(fields=f)


def all_cases(I, task, ops=None, forms=None, fields=False):
    fam, i = task
    reg = regimes(fam)[i]
    for op in (ops if ops is not None else list(OPS) + list(OPS0)):
        if op in OPS:
            for c in combos(op, fam):
                if forms is not None and not (set(c) - {"posint"}) <= set(forms):
                    continue
                yield lambda op=op, c=c: case(I, fam, reg, op, c, fields)
        else:
            yield lambda op=op: case(I, fam, reg, op, (), fields)


def unsupported(fam, op):
    """operations a family documents as having no meaning there"""
    return fam == "A" and op in ("part2pair", "pair2part", "schub_type") or fam in "BC" and op == "schub_type"


def chain_of(ev):
    return [fmt(c) for c in ev.chain]


def fmt(loc):
    return "%s:%s (%s)" % (loc[0], loc[1], loc[2]) if loc else "?"
