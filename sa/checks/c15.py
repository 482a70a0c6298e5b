"""Arithmetic on classes and combinations is polynomial arithmetic."""
from fractions import Fraction
from .common import *
from .algebra import *

EXPLAIN = ("Value numbering over abstract interpretation: the operands are polynomials over opaque classes and quantum parameters, and "
           "the polynomial an operator, a constructor or an expansion gives is compared with the one that the arithmetic of polynomials gives.")
RULES = {"R1": "a sum, difference, product or power of values is that of their polynomials, whichever side the operands stand on",
         "R2": "a combination made from any form of a value has that value",
         "R3": "the expansion in classes lists every term once, with its coefficient and its partition"}
MIN = 60
LCS = [[(1, (), "A")], [(2, (("q", 1),), "A"), (-3, (), "B")], [(-1, (("q1", 1), ("q2", 2)), "B")],
       [(1, (), "A"), (1, (), "B"), (7, (("q", 2),), "C")]]
OPN = {"+": "Add", "-": "Sub", "*": "Mult"}
TEXTS = ["S[2,1]", "2*S[2,1]", "-S[1]", "S[3]*q - 4*S[1,1]*q1", "q^2*S[2] + 5", "S[]", "7", "q1*q2*S[4,2,1] - 2*q^3*S[1]", "S[1]*S[2]",
         "S[2]^2 - S[3]*S[1]", "S[2,0] + S[2]", "S[10,2]", "0*S[1]+S[2]"]


def tasks(tier):
    return ["operators of combinations", "operators of classes", "construction", "expansion"]


def run(I, task, log, tier):
    with I.named(8):
        if task == "operators of combinations":
            for t in LCS:
                log.guard("R1", task, lambda: operators(I, log, "lc", t), 40)
                I.forget_results()
        elif task == "operators of classes":
            log.guard("R1", task, lambda: operators(I, log, "schur", None), 40)
        elif task == "construction":
            log.guard("R2", task, lambda: construction(I, log), 10)
        else:
            I.any_order = True
            try:
                log.guard("R3", task, lambda: expansion(I, log), 5)
            finally:
                I.any_order = False


def operand(s, kind, t):
    """(value, polynomial)"""
    if kind == "lc":
        v = numbered(s, t)
        return v, poly_of(s, v)
    if kind == "schur":
        v = made(s, SCH, opaque_list(s, t))
        return v, poly_of(s, s.method(v, "symbol", []).ret)
    if kind == "class":
        v = opaque_class(s, t)
        return v, poly_of(s, v)
    if kind == "expr":
        c = combination(s, t)
        v = s.obj(c).fields["expr"]
        return v, poly_of(s, v)
    if kind == "int":
        return AInt(Lin(t)), poly_const(t)
    if kind == "number":
        v = ASym(Sym(["num"], "mono", poly_const(t), ()))
        return v, poly_const(t)
    if kind == "float":
        return mk("float", t), poly_const(t)
    if kind == "param":
        return ASym(Sym(["q"], "mono", poly_atom(("q", t)), ())), poly_atom(("q", t))
    raise ValueError(kind)


OTHERS = [("lc", LCS[0]), ("lc", LCS[1]), ("lc", LCS[2]), ("lc", [(4, (), "C"), (1, (), "A")]), ("lc", [(1, (), None)]),
          ("schur", "A"), ("schur", "D"), ("class", "B"),
          ("expr", LCS[1]), ("expr", LCS[3]), ("int", 0), ("int", 1), ("int", -5), ("number", 3), ("number", Fraction(-3, 4)), ("float", Fraction(5, 2)),
          ("param", "q"), ("param", "q2")]


def arith(op, a, b):
    if a is None or b is None:
        return None
    if op == "+":
        return poly_add(a, b)
    if op == "-":
        return poly_add(a, poly_mul(b, poly_const(-1)))
    return poly_mul(a, b)


def operators(I, log, kind, t):
    ops = "+-*" if kind == "lc" else "+*"
    for op in ops:
        for k2, t2 in OTHERS:
            for rev in (False, True):
                if kind == "schur" and rev and k2 == "schur":
                    continue
                s = Session(I)
                a, pa = operand(s, kind, t if kind == "lc" else "A")
                b, pb = operand(s, k2, t2)
                o = s.op(OPN[op], b, a) if rev else s.op(OPN[op], a, b)
                e = "%s %s %s" % ((k2, op, kind) if rev else (kind, op, k2))
                log.count("operator applications")
                if not o.normal:
                    log.viol("R1", e, e, "%s is not supported for these operands" % op, key="R1|%s" % op)
                    continue
                verdict(log, "R1", e, op, poly_of(s, o.ret), arith(op, *((pb, pa) if rev else (pa, pb))),
                        "of %s and %s" % (kind, k2), I)
    for n in (0, 1, 2, 3, -1, -2):
        for k2 in ("int", "number") + (("lc",) if kind == "lc" else ()):
            s = Session(I)
            a, pa = operand(s, kind, t if kind == "lc" else "A")
            if n < 0 and (pa is None or len(pa) != 1):
                continue
            b = made(s, LCM, AInt(Lin(n))) if k2 == "lc" else operand(s, k2, n)[0]
            o = s.op("Pow", a, b)
            log.count("operator applications")
            if not o.normal:
                log.viol("R1", "%s ** %s" % (kind, k2), "%s ** %s" % (kind, k2), "** is not supported for these operands", key="R1|**")
                continue
            r = poly_const(1)
            for _ in range(n):
                r = None if r is None else poly_mul(r, pa)
            if n < 0:
                (m, c), = pa
                r = frozenset([(tuple((z, e * n) for z, e in m), c ** n)])
            verdict(log, "R1", "%s ** %s" % (kind, k2), "**", poly_of(s, o.ret), r, "of %s and %d" % (kind, n), I)


def construction(I, log):
    for k, t in OTHERS:
        s = Session(I)
        v, p = operand(s, k, t)
        log.count("constructions")
        verdict(log, "R2", "combination from %s" % k, "construction", poly_of(s, made(s, LCM, v)), p, "from %s" % k, I)
        if k != "lc":
            continue
        # the text of a combination
        w = made(s, LCM, s.method(v, "__str__", []).ret)
        verdict(log, "R2", "combination from the text of a combination", "construction", poly_of(s, w), p, "from its text", I)
    s = Session(I)
    l = opaque_list(s, "A")
    p = poly_of(s, s.method(made(s, SCH, l), "symbol", []).ret)
    verdict(log, "R2", "combination from a list", "construction", poly_of(s, made(s, LCM, l)), p, "from a list", I)
    verdict(log, "R2", "combination from the symbol of a class", "construction", poly_of(s, made(s, LCM, opaque_class(s, "A"))), p, "from a symbol", I)
    verdict(log, "R2", "class from its own symbol", "construction", poly_of(s, s.method(made(s, SCH, opaque_class(s, "A")), "symbol", []).ret), p,
            "of a class from its symbol", I)
    for t in TEXTS:
        s = Session(I)
        log.count("constructions")
        verdict(log, "R2", "combination from the text %r" % t, "construction", poly_of(s, made(s, LCM, AStr(t))), meant(t), "from %r" % t, I)


def meant(text):
    """the polynomial a text in the notation of the documentation stands for"""
    import ast
    import re
    names = {}

    def cls(m):
        nm = "X%d" % len(names)
        names[nm] = poly_atom(("S", ("lit",) + tuple(("k", int(x)) for x in m.group(1).replace(" ", "").split(",") if x)))
        return nm
    t = re.sub(r"S\[([^\]]*)\]", cls, text).replace("^", "**")

    def go(n):
        if isinstance(n, ast.Constant):
            return poly_const(n.value)
        if isinstance(n, ast.Name):
            return names.get(n.id) or poly_atom(("q", n.id))
        if isinstance(n, ast.UnaryOp):
            return poly_mul(poly_const(-1), go(n.operand))
        a = go(n.left)
        if isinstance(n.op, ast.Pow):
            r = poly_const(1)
            for _ in range(n.right.value):
                r = poly_mul(r, a)
            return r
        return arith({ast.Add: "+", ast.Sub: "-", ast.Mult: "*"}[type(n.op)], a, go(n.right))
    return go(ast.parse(t, mode="eval").body)


def expansion(I, log):
    for terms in LCS + [[(5, (), "A"), (1, (("q", 1),), "B"), (2, (("q", 1), ), "C")],
                        [(7, (), None)], [(5, (), "A"), (-4, (), None)], [(3, (("q", 2),), "A"), (2, (), None), (1, (), "B")]]:
        for args in ([], [ABool(True)], [ABool(False)]):
            s = Session(I)
            v = numbered(s, terms)
            o = s.method(v, "schur_expansion", args)
            log.count("expansions")
            e = "expansion of %d terms%s" % (len(terms), " without quantum terms" if args and args == [ABool(False)] else "")
            if not o.normal:
                log.und("R3", e, "no normal return")
                continue
            got = terms_of(s, o.ret)
            kept = [t for t in terms if not (args == [ABool(False)] and t[1])]
            want = poly_of(s, numbered(s, kept)) if kept else frozenset()
            # a number is listed as a multiple of the class of the empty partition
            want = None if want is None else frozenset((m or ((("S", ("lit",)), 1),), c) for m, c in want)
            verdict(log, "R3", e, "schur_expansion", got, want, "of %d terms" % len(terms), I)


def numbered(s, terms):
    """a combination that may have a number among its terms"""
    v = None
    classes = [t for t in terms if t[2] is not None]
    if classes:
        v = combination(s, classes)
    for c, q, name in terms:
        if name is None:
            v = made(s, LCM, AInt(Lin(c))) if v is None else s.op("Add", v, AInt(Lin(c))).ret
    return v


def terms_of(s, v):
    """the polynomial a list of (coefficient, partition) stands for"""
    if len(v) != 1:
        return None
    a, = v
    o = s.I.get(s.st, a.p) if a.k == "ref" else None
    if o is None or o.items is None:
        return None
    acc = frozenset()
    # a single term is given as a pair
    for x in o.items if o.kind == "list" else [v]:
        if len(x) != 1:
            return None
        t, = x
        t = s.I.get(s.st, t.p) if t.k == "ref" else None
        if t is None or t.items is None or len(t.items) != 2:
            return None
        c, l = t.items
        ok, n = const_of(c)
        pc = poly_const(n) if ok and isinstance(n, int) else poly_of(s, c)
        r = new(s, SCH, l)
        pl = poly_of(s, s.method(r.ret, "symbol", []).ret) if r.normal else None
        if pc is None or pl is None:
            return None
        acc = poly_add(acc, poly_mul(pc, pl))
    return acc
