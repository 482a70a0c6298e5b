"""Combinations of opaque classes and the polynomials operations give for them."""
from .common import *
from ..dom import poly_const, poly_atom, poly_add, poly_mul, poly_str
from ..models import refine, lit_numbers
from fractions import Fraction


def opaque_class(s, name, form="list"):
    """the symbol of a class standing for any partition (pair of partitions)"""
    if form == "special":
        lst = s.lst([AInt(Lin({"B": 2}.get(name, 1)))])
    elif form == "pair":
        return ASym(Sym(["schur"], "mono", poly_atom(("S", ("pair", name))), ("pair?",)))
    else:
        lst = opaque_list(s, name)
    r = made(s, SCH, lst)
    return s.method(r, "symbol", []).ret


def opaque_list(s, name):
    ln = Lin.sym("len_%s" % (name,))
    s.st.cons = s.st.cons.add_ge(ln)
    return s.lst(None, AInt(None), ln, [], vn=("arg", name))


def qmono(q):
    return frozenset([(tuple(sorted((("q", x), n) for x, n in q)), Fraction(1))])


def monomial(c, q):
    (m, _), = qmono(q)
    return frozenset([(m, Fraction(c))])


def combination(s, terms, form="list"):
    """LinearCombination of c * q * class; terms: [(c, q, name)]"""
    acc = None
    for c, q, name in terms:
        x = opaque_class(s, name, form) if name is not None else ASym(Sym(["num"], "mono", poly_const(1), ()))
        for p, n in q:
            for _ in range(n):
                x = s.op("Mult", ASym(Sym(["q"], "mono", poly_atom(("q", p)), ())), x).ret
        if c != 1:
            x = s.op("Mult", AInt(Lin(c)), x).ret
        acc = x if acc is None else s.op("Add", acc, x).ret
    return made(s, LCM, acc)


def result_poly(c):
    """the one polynomial a call gives, or None"""
    if not c.out.normal:
        return None
    return poly_of(sess(c), c.out.ret)


def poly_of(s, v):
    vals = set()
    for a in v:
        if a.k == "sym":
            vals.add(a.p.val)
            continue
        o = s.I.get(s.st, a.p) if a.k == "ref" else None
        if o is None or o.kind != "inst" or "expr" not in o.fields:
            return None
        for x in o.fields["expr"]:
            vals.add(x.p.val if x.k == "sym" else None)
    return next(iter(vals)) if len(vals) == 1 else None


def scale(p, c, q):
    return None if p is None else poly_mul(p, monomial(c, q))


def div_mono(p, c, q):
    if p is None:
        return None
    return poly_mul(p, frozenset([(tuple(sorted((("q", x), -n) for x, n in q)), Fraction(1) / c)]))


def add(p, q):
    return poly_add(p, q)


def atoms(p):
    return {a for m, _ in p for a, _ in m if a[0] != "q"}


def comparable(v, r, I=None):
    """both sides are built from the same opaque results, or from classes that are told apart by what they are made from"""
    if v == r or atoms(v) <= atoms(r):
        return True
    v, r = rigid(v, I), rigid(r, I)
    return v is not None and r is not None and v != r


def rigid(p, I):
    """the polynomial with every class written by the list it was made from, leaving out copies; None if one is not known"""
    if I is None:
        return None
    out = frozenset()
    for m, c in p:
        t = frozenset([((), c)])
        for at, n in m:
            if at[0] == "S":
                if at[1][:1] == ("pair",):
                    b = at
                else:
                    h = history(I, at[1])
                    if h is None or any(x[0] == "f" and "copy" not in x[1] for x in h[1]):
                        return None
                    b = ("S", (h[0], tuple(x for x in h[1] if x[0] != "f")))
            elif at[0] == "q":
                b = at
            else:
                return None
            t = poly_mul(t, frozenset([(((b, n),), Fraction(1))]))
        out = poly_add(out, t)
        if out is None:
            return None
    return out


def verdict(log, rule, e, op, v, r, what, I=None):
    if v is None or r is None:
        log.und(rule, e, "a result is not known as a polynomial")
    elif v == r or I is not None and rigid(v, I) is not None and rigid(v, I) == rigid(r, I):
        log.ok(rule)
    elif comparable(v, r, I):
        log.viol(rule, e, e, "%s %s gives %s, expected %s" % (op, what, poly_str(v)[:160], poly_str(r)[:160]), key="%s|%s" % (rule, op))
    else:
        log.und(rule, e, "the results rest on different computations")


def show(c, q):
    return "*".join([str(c)] + [x if n == 1 else "%s^%d" % (x, n) for x, n in q])


def stand_in(I, sp):
    """Giambelli expressions of opaque classes, replaced by arbitrary expressions in special classes"""
    s = sp.s

    def sub(interp, fn, bound, node, st, quantum=False):
        names = [p for p in bound if p != "self"]
        if not names:
            return None
        p = None
        for a in bound[names[0]]:
            if a.k == "sym":
                p = a.p.val
            elif a.k == "ref":
                o = interp.get(st, a.p)
                x = o.fields.get("expr") if o.kind == "inst" else None
                p = next(iter(x)).p.val if x is not None and len(x) == 1 and next(iter(x)).k == "sym" else None
        if p is None:
            return None
        table = {}
        one, two = poly_atom(("S", ("lit", ("k", 1)))), poly_atom(("S", ("lit", ("k", 2))))
        for at in atoms(p):
            nm = repr(at)
            in_a, in_b = ("A" in tokens_in(interp, at), "B" in tokens_in(interp, at))
            if quantum:
                table[at] = two if in_a else poly_mul(one, two) if in_b else one
            else:
                table[at] = one if in_a else two if in_b else poly_mul(one, two)
        r = frozenset()
        for m, c in p:
            t = poly_const(c)
            for at, n in m:
                for _ in range(n):
                    t = poly_mul(t, table.get(at, poly_atom(at)))
            r = poly_add(r, t)
        v = ASym(refine(Sym(Sym.ALL, "sum", r, ("part?",))))
        return interp.call(s.cls(*LCM), [v], {}, node, st)
    for nm in ("giambelli", "qgiambelli"):
        f = I.class_lookup(next(iter(sp.cls)).p, nm, s.st)
        for a in f or ():
            if a.k == "fn":
                # in type A the two expressions are the same
                quantum = nm == "qgiambelli" and sp.fam != "A"
                I.hooks[a.p.node] = (lambda *x: sub(*x, quantum=True)) if quantum else sub


def tokens_in(I, at):
    """names of the opaque lists an atom was made from"""
    out = set()
    inv = I.token_names()

    def go(x):
        if isinstance(x, tuple):
            if len(x) >= 3 and x[0] == "call" and x[2] in inv and isinstance(x[2], int):
                go(inv[x[2]])
            if len(x) == 2 and x[0] == "arg":
                out.add(x[1])
            for y in x:
                go(y)
        elif isinstance(x, frozenset):
            for y in x:
                go(y)
    go(at)
    return out


def history(I, vn):
    """what a list was made from: (opaque list, sorted steps), or None"""
    inv = I.token_names()
    steps = []
    while True:
        if not isinstance(vn, tuple) or not vn:
            return None
        if vn[0] == "prod":
            return vn[1], tuple(sorted(vn[2] + tuple(steps)))
        if vn[0] in ("arg", "lit"):
            return vn, tuple(sorted(steps))
        if vn[0] != "call":
            return None
        steps.append(("f", str(vn[1]), 0))
        found = set()

        def go(x):
            if isinstance(x, tuple):
                if x and (x[0] in ("prod", "arg") or x[0] == "lit" and lit_numbers(x)
                          or x[0] == "call" and len(x) > 2 and isinstance(x[2], int) and x[2] in inv):
                    found.add(x)
                    return
                for y in x:
                    go(y)
            elif isinstance(x, frozenset):
                for y in x:
                    go(y)
        go(inv.get(vn[2]))
        if len(found) != 1:
            return None
        vn, = found


def stand_in_pieri(I, sp):
    """products with special classes of opaque classes, replaced by arbitrary combinations (products commute)"""
    s = sp.s

    def rule(what):
        def sub(interp, fn, bound, node, st):
            hit = [w for f, w in what if f == fn]
            if len(hit) != 1:
                return None
            coefs = hit[0]
            num = lst = None
            flat = []
            for p, v in bound.items():
                a = next(iter(v)) if len(v) == 1 else None
                o = interp.get(st, a.p) if a is not None and a.k == "ref" else None
                flat += o.items if o is not None and o.kind == "tuple" and o.items is not None else [v]
            for v in flat:
                ok, c = const_of(v)
                if ok and isinstance(c, int):
                    num = c if num is None else num
                elif lst is None:
                    for a in v:
                        o = interp.get(st, a.p) if a.k == "ref" else None
                        if o is not None and o.kind in ("list", "tuple"):
                            lst = o.vn
            h = history(interp, lst)
            if num is None or h is None:
                return None
            r = frozenset()
            for j, (c, q) in enumerate(coefs):
                t = ("prod", h[0], tuple(sorted(h[1] + (("x", str(num), j),))))
                r = poly_add(r, poly_mul(monomial(c, (("q", q),) if q else ()), poly_atom(("S", t))))
            return interp.call(s.cls(*LCM), [ASym(refine(Sym(Sym.ALL, "sum", r, ("part?",))))], {}, node, st)
        return sub
    rules = {"_pieri": [(1, 0), (2, 0)], "_qpieri": [(1, 0), (3, 1)]}
    what, nodes = [], set()
    for g in sp.gr:
        for nm in rules:
            for a in s.st.heap[g.p].fields.get(nm, ()):
                f = a.p[1] if a.k == "bm" else a
                if f.k == "fn":
                    what.append((f.p, rules[nm]))
                    nodes.add(f.p.node)
    for n in nodes:
        I.hooks[n] = rule(what)
