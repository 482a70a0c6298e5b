"""Exact answers of sympy attributes and methods on expressions whose polynomial is known."""
from fractions import Fraction
from .dom import *


def known(p):
    """polynomial over classes and quantum parameters only, in expanded form"""
    return p.val is not None and p.form in ("mono", "sum") and all(
        isinstance(at, tuple) and at[0] in ("q", "S") and n >= 0 for m, _ in p.val for at, n in m)


def atom_of(v):
    """the class or parameter a value is, or None"""
    if len(v) != 1:
        return None
    a, = v
    if a.k != "sym" or a.p.val is None or len(a.p.val) != 1:
        return None
    (m, c), = a.p.val
    if c != 1 or len(m) != 1 or m[0][1] != 1 or not isinstance(m[0][0], tuple) or m[0][0][0] not in ("q", "S"):
        return None
    return m[0][0]


def coefficient(val, at, n):
    """of at**n"""
    out = {}
    for m, c in val:
        if dict(m).get(at, 0) == n:
            out[tuple(x for x in m if x[0] != at)] = c
    return frozenset(out.items())


def derivative(val, at):
    out = frozenset()
    for m, c in val:
        d = dict(m)
        n = d.get(at, 0)
        if n:
            d[at] = n - 1
            mm = tuple(x for x in ((y, d[y] if y == at else k) for y, k in m) if x[1])
            out = poly_add(out, frozenset([(mm, c * n)]))
            if out is None:
                return None
    return out


def substitute(val, at, by):
    out = frozenset()
    for m, c in val:
        t = frozenset([(tuple(x for x in m if x[0] != at), c)])
        for _ in range(dict(m).get(at, 0)):
            t = poly_mul(t, by)
            if t is None:
                return None
        out = poly_add(out, t)
        if out is None:
            return None
    return out


def number(val):
    """value of an integer constant, or None"""
    if not val:
        return 0
    c = poly_is_const(val)
    return int(c) if c is not None and c == int(c) else None


class Exact:
    """mixed into the models; every method answers None when the answer is not known"""

    def ex_sym(self, val, part, l):
        from .models import refine
        if val is None:
            return None
        return ASym(refine(Sym(Sym.ALL, "sum", val, part if val and poly_is_const(val) is None else ())), l)

    def ex_equal(self, p, q):
        """are two expressions the same expression (classes of different names may be the same class)"""
        if p is None or q is None or not known(p) or not known(q):
            return None
        if p.val == q.val:
            return True
        plain = lambda v: all(at[0] == "q" for m, _ in v for at, n in m)
        if plain(p.val) and plain(q.val):
            return False
        for u, v in ((p.val, q.val), (q.val, p.val)):
            signs = {c > 0 for m, c in v if m}
            if all(not m for m, _ in u) and len(signs) == 1:
                return False        # a number is not an expression in which nothing cancels
        return None

    def ex_attr(self, a, name, node, st):
        from .models import val_args
        p = a.p
        if not known(p):
            return None
        k = poly_is_const(p.val) if p.val else Fraction(0)
        if name in ("is_number", "is_Number", "is_Rational"):
            return ABool(k is not None, a.l)
        if name in ("is_Integer", "is_integer") and (k is not None or name == "is_Integer"):
            return ABool(k is not None and k == int(k), a.l)
        if name == "is_zero" and k is not None:
            return ABool(k == 0, a.l)
        if name in ("is_negative", "is_positive") and k is not None:
            return ABool(k < 0 if name == "is_negative" else k > 0, a.l)
        if name in ("base", "exp") and p.cls == {"pow"}:
            its = val_args(p)
            if its is not None:
                return ASym(its[0 if name == "base" else 1], a.l)
        return None

    def ex_method(self, a, name, args, kw, node, st):
        from .models import val_args
        p = a.p
        I = self.I
        if kw or any(isinstance(x, tuple) for x in args):
            return None
        if name in ("coeff", "diff", "subs", "has", "as_ordered_terms", "as_coeff_Mul", "as_base_exp", "as_coeff_Add"):
            if not known(p):
                return None
        if name == "coeff" and 1 <= len(args) <= 2:
            at = atom_of(args[0])
            n = self.ex_int(args[1]) if len(args) == 2 else 1
            if at is not None and n is not None and n >= 0:
                return self.ex_sym(coefficient(p.val, at, n), p.part, a.l)
        if name == "diff" and len(args) == 1:
            at = atom_of(args[0])
            if at is not None:
                return self.ex_sym(derivative(p.val, at), p.part, a.l)
        if name == "subs" and len(args) == 2 and len(args[1]) == 1:
            at = atom_of(args[0])
            by, = args[1]
            n = self.ex_int(args[1])
            v = poly_const(n) if n is not None else by.p.val if by.k == "sym" and known(by.p) and by.p.form == "mono" else None
            if at is not None and v is not None:
                return self.ex_sym(substitute(p.val, at, v), part_join(p.part, by.p.part if by.k == "sym" else ()), a.l)
        if name == "has" and args:
            ats = [atom_of(x) for x in args]
            if None not in ats:
                mine = {at for m, _ in p.val for at, _ in m}
                return ABool(any(at in mine for at in ats), a.l)
        if name == "as_ordered_terms" and not args:
            its = val_args(p) if p.cls == {"add"} else [p] if len(p.cls) == 1 else None
            if its is not None:
                return I.new_list(st, node, [ASym(x, a.l) for x in its], tag="terms")
        if name == "as_coeff_Mul" and not args and len(p.cls) == 1:
            c, rest = 1, p
            if len(p.val) == 1:
                (m, c), = p.val
                rest = next(iter(self.ex_sym(frozenset([(m, Fraction(1))]), p.part, a.l))).p
            elif not p.val:
                c, rest = 0, next(iter(self.ex_sym(poly_const(1), (), a.l))).p
            return I.new_list(st, node, [self.ex_sym(frozenset([((), Fraction(c))]) if c else frozenset(), (), a.l), ASym(rest, a.l)], kind="tuple", tag="acm")
        if name == "as_base_exp" and not args and p.cls & {"pow", "schur", "q"} and len(p.cls) == 1:
            its = val_args(p) if p.cls == {"pow"} else [p, next(iter(self.ex_sym(poly_const(1), (), a.l))).p]
            if its is not None:
                return I.new_list(st, node, [ASym(x, a.l) for x in its], kind="tuple", tag="abe")
        return None

    def ex_int(self, v):
        ok, c = const_of(v)
        if ok and isinstance(c, int):
            return int(c)
        if len(v) == 1:
            a, = v
            if a.k == "sym" and known(a.p):
                return number(a.p.val)
        return None

    def ex_make_args(self, which, v, node, st):
        """Add.make_args / Mul.make_args"""
        from .models import val_args
        if len(v) != 1:
            return None
        a, = v
        if a.k != "sym" or not known(a.p) or len(a.p.cls) != 1:
            return None
        its = val_args(a.p) if a.p.cls == {which.lower()} else [a.p]
        if its is None:
            return None
        return self.I.new_list(st, node, [ASym(x, a.l) for x in its], kind="tuple", tag="make_args")


def renamed(val, a, b):
    """a polynomial with the quantum parameter a written as b"""
    out = frozenset()
    for m, c in val:
        t = frozenset([((), c)])
        for at, n in m:
            t = poly_mul(t, frozenset([(((("q", b) if at == ("q", a) else at, n),), Fraction(1))]))
        out = poly_add(out, t)
    return out
