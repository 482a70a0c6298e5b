"""Entry points: abstract Grassmannians of every family and abstract inputs of
every declared form."""
from .session import *

MODS = {"A": ("schubertpy.grassmannian", "Grassmannian"),
        "C": ("schubertpy.isotropic_grassmannian", "IsotropicGrassmannian"),
        "B": ("schubertpy.orthogonal_grassmannian", "OrthogonalGrassmannian"),
        "D": ("schubertpy.orthogonal_grassmannian", "OrthogonalGrassmannian")}

# (label, family, cons builder, N as Lin) with 'm' and 'h' free; valid spaces only
m = Lin.sym("m")
h = Lin.sym("h")
ONE = Lin(1)


def regimes(fam):
    """list of (label, [constraints >=0], m Lin, N Lin, k Lin)"""
    if fam == "A":
        N = h
        k = N - m
        base = [m, k]
        return [("A k=0", base + [k.scale(-1)], m, N, k),
                ("A k=1", base + [k - ONE, ONE - k, m - ONE], m, N, k),
                ("A k>=2", base + [k - Lin(2), m - ONE], m, N, k),
                ("A m=0", base + [k - ONE, m.scale(-1)], m, N, k)]
    if fam == "C":
        N = h.scale(2)
        k = h - m
        base = [m, k]
        return [("C k=0", base + [k.scale(-1)], m, N, k), ("C k>=1", base + [k - ONE], m, N, k)]
    if fam == "B":
        N = h.scale(2) + ONE
        k = h - m
        base = [m, k]
        return [("B k=0", base + [k.scale(-1)], m, N, k), ("B k>=1", base + [k - ONE], m, N, k)]
    if fam == "D":
        N = h.scale(2)
        k = h - m
        base = [m - ONE, k]
        return [("D k=0", base + [k.scale(-1)], m, N, k),
                ("D k=1", base + [k - ONE, ONE - k], m, N, k),
                ("D k>=2", base + [k - Lin(2)], m, N, k)]


ALL = [r for f in "ACBD" for r in regimes(f)]


class Space:
    """a session holding one abstract Grassmannian"""

    def __init__(self, I, fam, reg, flag=True):
        self.I = I
        self.fam = fam
        self.label, cs, mm, N, k = reg
        c = Cons()
        for e in cs:
            c = c.add_ge(e)
            if c is None:
                raise AnalysisBroken("bad regime " + self.label)
        self.s = Session(I, c)
        self.m, self.N, self.k = mm, N, k
        self.cls = self.s.cls(*MODS[fam])
        self.ctor = self.s.call(self.cls, [AInt(mm), AInt(N)])
        if not self.ctor.normal:
            raise AnalysisBroken("constructor of %s never returns for %s: %s" % (
                MODS[fam][1], self.label, [e for e, _ in self.ctor.raises]))
        self.gr = self.ctor.ret
        if flag:
            self.s.flag(self.gr, ["recv"])


LIN = Sym(["num", "schur", "q", "add", "mul"], "sum", None, ("part?",))


def arg(s, kind, name, sym=LIN):
    """abstract argument of the given form, flagged as belonging to the caller"""
    l = frozenset(["P:" + name])
    fl = ["arg:" + name]
    if kind == "expr":
        return ASym(sym, l)
    if kind == "str":
        return AStr(StrD("expr", sym), l)
    if kind == "lc":
        r = s.call(s.cls("schubertpy.lc", "LinearCombination"), [ASym(sym, l)])
        if not r.normal:
            raise AnalysisBroken("LinearCombination(expr) never returns: %s" % [e for e, _ in r.raises])
        s.flag(r.ret, fl)
        return r.ret
    if kind == "list":
        ln = Lin.sym("len_" + name)
        s.st.cons = s.st.cons.add_ge(ln)
        return s.lst(None, AInt(None, l), ln, fl, vn=("arg", name))
    if kind == "pair":
        a = s.lst(None, AInt(None, l), None, fl)
        b = s.lst(None, AInt(None, l), None, fl)
        return s.lst([a, b], flags=fl)
    if kind == "schur":
        ln = Lin.sym("len_" + name)
        s.st.cons = s.st.cons.add_ge(ln)
        p = s.lst(None, AInt(None, l), ln, fl, vn=("arg", name))
        r = s.call(s.cls("schubertpy.schur", "Schur"), [p])
        if not r.normal:
            raise AnalysisBroken("Schur(list) never returns: %s" % [e for e, _ in r.raises])
        s.flag(r.ret, fl)
        return r.ret
    if kind == "pairschur":
        p = arg(s, "pair", name)
        r = s.call(s.cls("schubertpy.schur", "Schur"), [p])
        if not r.normal:
            raise AnalysisBroken("Schur(pair) never returns: %s" % [e for e, _ in r.raises])
        s.flag(r.ret, fl)
        return r.ret
    if kind == "int":
        return AInt(None, l)
    if kind == "posint":
        x = Lin.sym("int_" + name)
        s.st.cons = s.st.cons.add_ge(x - ONE)
        return AInt(x, l)
    if kind == "empty":
        return s.lst([], flags=fl)
    raise ValueError(kind)


# operation -> list of parameter descriptions (name, forms); forms are the documented ones
LCF = ("str", "expr", "lc", "schur", "list")
OPS = {
    "pieri": [("i", ("posint",)), ("lc", LCF)],
    "qpieri": [("i", ("posint",)), ("lc", LCF)],
    "act": [("expr", LCF), ("lc", LCF)],
    "qact": [("expr", LCF), ("lc", LCF)],
    "giambelli": [("lc", LCF)],
    "qgiambelli": [("lc", LCF)],
    "mult": [("lc1", LCF), ("lc2", LCF)],
    "qmult": [("lc1", LCF), ("lc2", LCF)],
    "toS": [("lc", LCF)],
    "qtoS": [("lc", LCF)],
    "dualize": [("lc", LCF)],
    "part2index": [("lc", LCF)],
    "index2part": [("lc", LCF)],
    "part2pair": [("lc", LCF)],
    "pair2part": [("lc", ("str", "expr", "lc", "schur", "pair"))],
    "type_swap": [("lc", LCF), ("k", ("posint",))],
    "miami_swap": [("lc", LCF)],
    "schub_type": [("lam", ("schur", "list"))],
    "qmult_rh": [("lc1", LCF), ("lc2", LCF)],
}
OPS0 = ("schub_classes", "generators", "point_class", "degree_q", "get_type_data", "__str__", "clone")
