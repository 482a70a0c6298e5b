"""Products and conversions are iterated multiplication by special classes."""
from .common import *
from .algebra import *

EXPLAIN = ("Value numbering over abstract interpretation: two computations over opaque classes are run abstractly and the polynomials "
           "they give are compared term by term; multiplication of an opaque class by a special class is either kept as a named "
           "result or replaced by an arbitrary rule that commutes.")
RULES = {"R1": "acting by a special class is the product with that special class",
         "R2": "acting by a product is acting by its factors one after the other",
         "R3": "acting by a number or a quantum parameter is multiplying by it",
         "R4": "a product is the action of the Giambelli expression of one factor on the other",
         "R5": "writing an expression in classes is its action on the unit class",
         "R6": "the unit class is the unit of the product and its Giambelli expression is 1"}
MIN = 60
# expressions in special classes, as (coefficient, parameter power, special classes)
WORDS = [[(1, (), (1, 2))], [(1, (), (1, 1))], [(1, (), (1, 1, 2))], [(-2, (("q", 1),), (1, 2))], [(3, (), (2, 2, 2))],
         [(1, (), (1, 2)), (-1, (), (2,))], [(-1, (), (1, 1, 1, 1))],
         [(1, (), (1,)), (1, (), (2, 2))], [(2, (), (1,)), (1, (("q", 2),), ())], [(2, (("q", 3),), (3, 2)), (1, (), (3,)), (1, (), ())], [(2, (), (1, 1)), (5, (("q", 2),), ())], [(1, (), (1, 1)), (-1, (("q1", 1),), (2,)), (4, (), ())]]
NUMBERS = [(1, ()), (0, ()), (-4, ()), (1, (("q", 1),)), (2, (("q1", 1), ("q2", 2)))]
ARGS = [[(1, (), "A")], [(2, (("q", 1),), "A"), (-1, (), "B")]]


def tasks(tier):
    return ALLTASKS


def run(I, task, log, tier):
    fam, i = task
    reg = regimes(fam)[i]
    with I.named(9):
        for name, f in (("R1", single), ("R2", words), ("R3", numbers), ("R4", products), ("R5", conversions), ("R6", units)):
            log.guard(name, reg[0], lambda: f(I, log, fam, reg), 120)
            I.forget_results()


class W:
    """one space, with products replaced or not"""

    def __init__(self, I, fam, reg, replaced, giamb=True):
        I.hooks = {}
        self.sp = Space(I, fam, reg)
        self.s = self.sp.s
        if replaced:
            if giamb:
                stand_in(I, self.sp)
            stand_in_pieri(I, self.sp)

    def call(self, op, *args):
        out = self.s.method(self.sp.gr, op, list(args))
        return out.ret if out.normal else None

    def poly(self, v):
        return None if v is None else poly_of(self.s, v)

    def lc(self, terms):
        return combination(self.s, terms)

    def word(self, terms):
        """an expression in special classes; terms: (coefficient, parameter power, classes)"""
        acc = None
        for c, q, ns in terms:
            x = self.number(c, q)
            for n in ns:
                y = self.special(n)
                x = y if x is None else self.s.op("Mult", x, y).ret
            x = AInt(Lin(c)) if x is None else x
            acc = x if acc is None else self.s.op("Add", acc, x).ret
        return made(self.s, LCM, acc)

    def number(self, c, q):
        x = None if c == 1 else AInt(Lin(c))
        for p, n in q:
            for _ in range(n):
                y = ASym(Sym(["q"], "mono", poly_atom(("q", p)), ()))
                x = y if x is None else self.s.op("Mult", x, y).ret
        return x

    def special(self, n):
        return self.s.method(made(self.s, SCH, self.s.lst([AInt(Lin(n))])), "symbol", []).ret


def same(log, rule, e, op, v, r, what, I=None):
    log.count("pairs of computations compared")
    verdict(log, rule, e, op, v, r, what, I)


def pairs(fam):
    return [("act", "pieri"), ("qact", "qpieri")]


def single(I, log, fam, reg):
    for act, mul in pairs(fam):
        for replaced in (False, True):
            for terms in ARGS[:2] if replaced else [[(2, (), "A")], ARGS[1]]:
                for n in (1, 2, 3):
                    w = W(I, fam, reg, replaced)
                    a = w.poly(w.call(act, w.special(n), w.lc(terms)))
                    b = w.poly(w.call(mul, AInt(Lin(n)), w.lc(terms)))
                    same(log, "R1", "%s: %s by the special class %d%s" % (reg[0], act, n, ", any rule" if replaced else ""), act, a, b, "by S[%d]" % n, I)
                I.forget_results()


def words(I, log, fam, reg):
    for act, mul in pairs(fam):
        for word in WORDS:
            for terms in ARGS[:2]:
                w = W(I, fam, reg, True)
                a = w.poly(w.call(act, w.word(word), w.lc(terms)))
                b = frozenset()
                for c, q, ns in word:
                    x = w.lc(terms)
                    for n in ns:
                        x = w.call(mul, AInt(Lin(n)), x) if x is not None else None
                    p = scale(w.poly(x), c, q)
                    b = None if b is None or p is None else add(b, p)
                same(log, "R2", "%s: %s by an expression of %d terms" % (reg[0], act, len(word)), act, a, b, "by " + text(word), I)
                I.forget_results()


def text(word):
    return " + ".join("*".join([show(c, q)] + ["S[%d]" % n for n in ns]) for c, q, ns in word)


def numbers(I, log, fam, reg):
    for act, mul in pairs(fam):
        for c, q in NUMBERS:
            for terms in ARGS[:2]:
                w = W(I, fam, reg, False)
                a = w.poly(w.call(act, w.word([(c, q, ())]), w.lc(terms)))
                b = scale(w.poly(w.lc(terms)), c, q)
                same(log, "R3", "%s: %s by a number" % (reg[0], act), act, a, frozenset() if c == 0 else b, "by " + show(c, q), I)


def products(I, log, fam, reg):
    for op, act, giamb in (("mult", "act", "giambelli"), ("qmult", "qact", "qgiambelli")):
        for terms in ARGS[:2]:
            for other in ([(1, (), "C")], [(1, (), "C"), (-3, (), "A")], terms, [(1, (), None), (2, (), "C")], None):
                w = W(I, fam, reg, True)

                def second():
                    return unit(w) if other is None else w.lc(other)
                a = w.poly(w.call(op, w.lc(terms), second()))
                g = w.call(giamb, w.lc(terms))
                b = w.poly(w.call(act, g, second())) if g is not None else None
                g2 = w.call(giamb, second())
                c = w.poly(w.call(act, g2, w.lc(terms))) if g2 is not None else None
                if a is not None and a == c:
                    b = c
                same(log, "R4", "%s: %s" % (reg[0], op), op, a, b, "of two classes", I)
                I.forget_results()


def unit(w):
    return w.s.method(made(w.s, SCH, w.s.lst([])), "symbol", []).ret


def conversions(I, log, fam, reg):
    for op, act, giamb in (("toS", "act", "giambelli"), ("qtoS", "qact", "qgiambelli")):
        for terms in ARGS[:2]:
            w = W(I, fam, reg, True)
            a = w.poly(w.call(op, w.lc(terms)))
            g = w.call(giamb, w.lc(terms))
            b = w.poly(w.call(act, g, unit(w))) if g is not None else None
            same(log, "R5", "%s: %s" % (reg[0], op), op, a, b, "of classes", I)
            I.forget_results()


def units(I, log, fam, reg):
    for op, giamb in (("mult", "giambelli"), ("qmult", "qgiambelli")):
        w = W(I, fam, reg, False)
        same(log, "R6", "%s: %s of the unit class" % (reg[0], giamb), giamb, w.poly(w.call(giamb, unit(w))), poly_const(1), "of the unit class", I)
        for terms in ARGS[:2]:
            w = W(I, fam, reg, True, False)
            a = w.poly(w.call(op, unit(w), w.lc(terms)))
            same(log, "R6", "%s: %s by the unit class" % (reg[0], op), op, a, w.poly(w.lc(terms)), "by the unit class", I)
            I.forget_results()
