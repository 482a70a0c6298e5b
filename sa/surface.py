"""The rest of the public surface: value classes, tables, drawing, Sage bridge."""
from .survey import *

LCM = "schubertpy.lc", "LinearCombination"
SCH = "schubertpy.schur", "Schur"
PAR = "schubertpy.partition", "Partition"
OPS2 = {"+": "Add", "-": "Sub", "*": "Mult", "**": "Pow"}


class MCase:
    """one abstract call that is not an operation of a Grassmannian"""
    __slots__ = ("s", "out", "entry", "recv", "args", "kind")

    def __init__(self, s, out, entry, recv=None, args=(), kind="value"):
        self.s, self.out, self.entry, self.recv, self.args, self.kind = s, out, entry, recv, args, kind


def new(s, which, *a):
    return s.call(s.cls(*which), list(a))


def made(s, which, *a):
    r = new(s, which, *a)
    if not r.normal:
        raise AnalysisBroken("%s%r never returns: %s" % (which[1], a, [e for e, _ in r.raises][:3]))
    return r.ret


def nonneg_list(s, name, ln=None):
    return arg(s, "list", name)


def recv(s, which, sym=LIN):
    if which == LCM:
        v = made(s, LCM, ASym(sym, frozenset(["P:self"])))
    elif which == SCH:
        v = made(s, SCH, arg(s, "list", "self"))
    else:
        v = made(s, PAR, arg(s, "list", "self"))
    s.flag(v, ["recv"])
    return v


LC_FORMS = ("expr", "str", "lc", "schur", "list", "int", "empty")
SCH_FORMS = ("list", "pair", "schur", "empty")
LC_METHODS = ["__str__", "__repr__", "__len__", "list_schur_oprands", "has_part_zero_padding", "is_valid",
              "schur_expansion", "draw_ascii_partition"]
SCH_METHODS = ["__str__", "__repr__", "__hash__", "symbol", "partition", "has_part_zero_padding", "print_partition",
               "latex", "latex_standalone", "plot_partition"]
PAR_METHODS = ["__str__", "__repr__", "draw"]
OPERANDS = ("lc", "schur", "expr", "int")


def idfun(s):
    """a caller's function for LinearCombination.apply"""
    return s.I.module_attr("schubertpy.schur", "Schur")


def value_cases(I):
    def ctor(which, f, nm):
        def go():
            s = Session(I)
            if f == "schsym":
                a = ASym(Sym(["schur"], "mono", None, ("part?",)), frozenset(["P:x"]))
            elif f == "schstr":
                a = AStr(StrD("expr", Sym(["schur"], "mono", None, ("part?",))), frozenset(["P:x"]))
            else:
                a = arg(s, f, "x")
            return MCase(s, new(s, which, a), "%s(%s)" % (nm, f), None, [a], "ctor")
        return go
    for f in LC_FORMS:
        yield ctor(LCM, f, "LinearCombination")
    for f in SCH_FORMS + ("schsym", "schstr"):
        yield ctor(SCH, f, "Schur")
    for f in ("list", "empty"):
        yield ctor(PAR, f, "Partition")

    def opn(which, op, f, rev, nm):
        def go():
            s = Session(I)
            a = recv(s, which)
            b = arg(s, f, "x")
            o = s.op(OPS2[op], b, a) if rev else s.op(OPS2[op], a, b)
            return MCase(s, o, ("%s %s %s" % ((f, op, nm) if rev else (nm, op, f))), a, [b], "operator")
        return go
    for which, nm, ops in ((LCM, "LinearCombination", "+ - * **"), (SCH, "Schur", "+ * **")):
        for op in ops.split():
            for f in OPERANDS:
                yield opn(which, op, f, False, nm)
                if op != "**" and not (which == SCH and f == "schur"):
                    yield opn(which, op, f, True, nm)

    def meth(which, m, args, nm):
        def go():
            s = Session(I)
            a = recv(s, which, ) if m not in ("schur_expansion", "draw_ascii_partition") else recv(
                s, which, Sym(["num", "schur", "q", "add", "mul"], "sum", None, ("part?",)))
            av = args(s)
            return MCase(s, s.method(a, m, av), "%s.%s" % (nm, m), a, av, "method")
        return go
    none = lambda s: []
    for m in LC_METHODS:
        yield meth(LCM, m, none, "LinearCombination")
    for m in ("schur_expansion", "draw_ascii_partition"):
        yield meth(LCM, m, lambda s: [ABool(False, frozenset(["P:include_q"]))], "LinearCombination")
    for m in ("apply", "apply2"):
        yield meth(LCM, m, lambda s: [idfun(s)], "LinearCombination")
    for o in "+*^":
        yield meth(LCM, "is_operator", lambda s, o=o: [AStr(o)], "LinearCombination")
    for m in SCH_METHODS:
        yield meth(SCH, m, none, "Schur")
    def pairm(m, args):
        def go():
            s = Session(I)
            a = made(s, SCH, arg(s, "pair", "self"))
            s.flag(a, ["recv"])
            av = args(s)
            return MCase(s, s.method(a, m, av), "Schur.%s of a pair" % m, a, av, "method")
        return go
    for m in ("__str__", "__repr__", "__hash__", "symbol", "partition", "has_part_zero_padding"):
        yield pairm(m, none)
    yield pairm("plot_partition", none)
    yield pairm("export_png", lambda s: [AStr(None, frozenset(["P:filename"]))])
    yield meth(SCH, "to_polinomial_str", lambda s: [arg(s, "posint", "n")], "Schur")
    yield meth(SCH, "export_png", lambda s: [AStr(None, frozenset(["P:filename"]))], "Schur")
    for m in ("__eq__", "__lt__"):
        yield meth(SCH, m, lambda s: [arg(s, "schur", "other")], "Schur")
    for m in PAR_METHODS:
        yield meth(PAR, m, none, "Partition")
    yield meth(PAR, "is_in_range", lambda s: [arg(s, "posint", "nrow"), arg(s, "posint", "ncol")], "Partition")

    def grid(s):
        t = s.lst([arg(s, "posint", "nrow"), arg(s, "posint", "ncol")], kind="tuple")
        return [arg(s, "posint", "rim_size"), t]
    yield meth(PAR, "remove_rim_hooks", grid, "Partition")

    def yd():
        s = Session(I)
        a = arg(s, "list", "partition")
        return MCase(s, s.call(s.cls("schubertpy", "yd"), [a]), "yd", None, [a], "print")
    yield yd


# public functions on plain lists: (module, function, argument forms)
HELPERS = [("schubertpy.partition", [("part_clip", "list"), ("is_valid_part", "list"), ("skew_partition_height", "list list")]),
           ("schubertpy.qcalc", [("part_conj", "list"), ("part_gen", "list"), ("part_itr", "list"), ("part_len", "list"),
                                 ("part_itr_between", "list list list"),
                                 ("part2pair_inner", "list posint"), ("pair2part_inner", "pair"), ("type_swap_inner", "list posint"),
                                 ("part2indexA_inner", "list posint posint"), ("part2indexB_inner", "list posint posint"),
                                 ("part2indexC_inner", "list posint posint"), ("part2indexD_inner", "list posint posint"),
                                 ("index2partA_inner", "list posint posint"), ("index2partB_inner", "list posint posint"),
                                 ("index2partC_inner", "list posint posint"), ("index2partD_inner", "list posint posint"),
                                 ("dualize_index_inner", "list posint type"), ("count_ones", "list bool posint"),
                                 ("calc_comps", "list list list list posint posint posint"), ("count_comps", "list list bool posint posint"),
                                 ("pieri_set", "posint list posint posint posint"), ("spec2num", "schur")]),
           ("schubertpy.utils.mix", [("padding_right", "list int posint"), ("partition_to_ascii", "list"),
                                     ("embed_partition", "list posint posint"), ("SchurPol", "posint list")]),
           ("schubertpy.abstract_grassmannian", [("AbstractGrassmannian.static_miami_swap_inner", "list posint")])]
INPLACE = ("__iadd__", "__isub__", "__imul__", "__ipow__", "__itruediv__")


def helper_cases(I):
    def go(f, forms, nm):
        def th():
            s = Session(I)
            av = [ABool(None) if x == "bool" else AStr(None) if x == "type" else arg(s, x, "x%d" % i)
                  for i, x in enumerate(forms.split())]
            return MCase(s, s.call(f, av), nm, None, av, "helper")
        return th
    for mod, fs in HELPERS:
        for nm, forms in fs:
            f = find(I, mod, nm)
            if f:
                yield go(f, forms, nm.split(".")[-1])

    def inp(which, m, f):
        def th():
            s = Session(I)
            a = recv(s, which)
            b = arg(s, f, "x")
            return MCase(s, s.method(a, m, [b]), "%s.%s(%s)" % (which[1], m, f), a, [b], "method")
        return th

    def rim(f):
        def th():
            s = Session(I)
            a = recv(s, PAR)
            av = [arg(s, f, "rim_size"), s.lst([arg(s, "int", "nrow"), arg(s, "int", "ncol")], kind="tuple")]
            return MCase(s, s.method(a, "remove_rim_hooks", av), "Partition.remove_rim_hooks(%s)" % f, a, av, "method")
        return th
    yield rim("int")
    for which in (LCM, SCH, PAR):
        s = Session(I)
        c, = s.cls(*which)
        for m in INPLACE:
            if I.class_lookup(c.p, m, s.st) is not None:
                for f in OPERANDS:
                    yield inp(which, m, f)


def find(I, mod, name):
    """a public function, or None when the module has none of that name"""
    try:
        parts = name.split(".")
        v = I.module_attr(mod, parts[0])
        if len(parts) > 1:
            c, = v
            v = I.class_lookup(c.p, parts[1], Session(I).st)
        return v or None
    except (AnalysisBroken, KeyError, AttributeError, ValueError):
        return None


TABLES = ("MultTable", "QMultTable")


def table_cases(I, task):
    fam, i = task
    reg = regimes(fam)[i]
    for t in TABLES:
        def go(t=t):
            sp = Space(I, fam, reg)
            out = sp.s.call(sp.s.cls("schubertpy.mult_table", t), [sp.gr])
            return MCase(sp.s, out, "%s: %s(gr)" % (reg[0], t), sp.gr, [], "table")
        yield go


def table_methods(I, task):
    fam, i = task
    reg = regimes(fam)[i]
    for t in TABLES:
        for mth in ("print", "to_matrix", "__str__", "__repr__"):
            def go(t=t, mth=mth):
                sp = Space(I, fam, reg, flag=False)
                r = made(sp.s, ("schubertpy.mult_table", t), sp.gr)
                sp.s.flag(r, ["recv"])
                return MCase(sp.s, sp.s.method(r, mth), "%s: %s.%s" % (reg[0], t, mth), r, [], "table method")
            yield go
        for f in ("list", "schur"):
            def go(t=t, f=f):
                sp = Space(I, fam, reg, flag=False)
                r = made(sp.s, ("schubertpy.mult_table", t), sp.gr)
                sp.s.flag(r, ["recv"])
                av = [arg(sp.s, f, "a"), arg(sp.s, "schur", "b")]
                return MCase(sp.s, sp.s.method(r, "mult", av), "%s: %s.mult(%s, schur)" % (reg[0], t, f), r, av, "table method")
            yield go


def sage_cases(I):
    def go(fn, f):
        def th():
            s = Session(I)
            a = arg(s, f, "x") if f else mk("top", None, frozenset(["P:x"]))
            return MCase(s, s.call(s.cls("schubertsage.conversion", fn), [a]), fn, None, [a], "sage")
        return th
    yield go("schur_to_sage_schur", "schur")
    yield go("sage_schur_to_schur", None)


TASKS = ALLTASKS + ["values"]


def every_case(I, task, ops=None, tables=True, helpers=False):
    """thunks covering the whole public surface; each returns Case or MCase"""
    if task == "values":
        if helpers:
            yield from helper_cases(I)
        yield from value_cases(I)
        yield from sage_cases(I)
        return
    yield from all_cases(I, task, ops)
    if tables:
        yield from table_cases(I, task)
        yield from table_methods(I, task)
