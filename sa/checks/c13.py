"""Operations are linear."""
from .common import *
from .algebra import *

EXPLAIN = ("Value numbering over abstract interpretation: classes are opaque symbols standing for any partition, expressions are "
           "polynomials over them, and a result that is not known is named by the call that gave it and its exact arguments.  "
           "The polynomial an operation gives for a combination of two classes is compared with the same combination of the "
           "polynomials it gives for each of them.")
RULES = {"R1": "an operation on a multiple of a class is that multiple of the operation on the class",
         "R2": "an operation on a sum is the sum of the operations on its terms"}
MIN = 60
# (coefficient, parameter power) of the terms tried
ONE_TERM = [(1, ()), (2, ()), (-3, ()), (1, (("q", 1),)), (5, (("q", 2),)), (-2, (("q1", 1), ("q2", 2)))]
SUMS = [((1, ()), (1, ())), ((1, ()), (-1, ())), ((2, (("q", 1),)), (-3, ())), ((-1, (("q", 2),)), (7, (("q1", 1),)))]

FAILS = "fails"


def tasks(tier):
    return ALLTASKS


def positions(op):
    """the arguments in which an operation is linear"""
    return [i for i, (nm, f) in enumerate(OPS[op]) if nm not in ("i", "k", "lam")]


def run(I, task, log, tier):
    fam, i = task
    reg = regimes(fam)[i]
    with I.named(6):
        for op in OPS:
            if op == "schub_type" or unsupported(fam, op) or op == "qmult_rh" and fam != "A":
                continue
            for pos in positions(op):
                log.guard("R1", "%s: %s" % (reg[0], op), lambda: one(I, log, fam, reg, op, pos), 60)
                I.forget_results()


def one(I, log, fam, reg, op, pos):
    compare(I, log, fam, reg, op, pos, op in ("mult", "qmult", "qmult_rh", "toS", "qtoS"))
    if op in ("pieri", "qpieri", "act", "qact"):
        I.forget_results()
        compare(I, log, fam, reg, op, pos, True)


def compare(I, log, fam, reg, op, pos, replaced):
    """replaced: the products of opaque classes with special classes are arbitrary combinations"""
    form = "pair" if op == "pair2part" else "list"
    e = "%s: %s (argument %d)%s" % (reg[0], op, pos + 1, ", any rule of multiplication" if replaced else "")

    def val(terms):
        """the polynomial of op on the combination, or None"""
        def mk_(sp):
            if replaced:
                stand_in(I, sp)
                stand_in_pieri(I, sp)
            out = []
            for j, (nm, f) in enumerate(OPS[op]):
                special = op in ("act", "qact") and j == 0
                if nm in ("i", "k"):
                    out.append(AInt(Lin(1)))
                else:
                    out.append(combination(sp.s, terms if j == pos else [(1, (), "C")], "special" if special else form))
            return out
        I.hooks = {}
        log.count("abstract calls")
        c = case(I, fam, reg, op, ("combination",), args=mk_)
        return result_poly(c) if c.out.normal else FAILS

    forms = {}
    for x in "AB":
        forms[x] = [((1, ()), val([(1, (), x)]))] + [((c, q), val([(c, q, x)])) for c, q in ONE_TERM[1:]]
    # what the operation gives for the class alone, read off from each of the multiples
    units = {x: [u for u in (div_mono(v, c, q) for (c, q), v in forms[x] if v != FAILS) if u is not None] for x in forms}
    alone = all(forms[x][0][1] not in (None, FAILS) for x in forms)

    def fails(rule, v, what):
        """an operation that works on a class alone has to work on combinations"""
        if v != FAILS:
            return False
        if alone:
            log.viol(rule, e, e, "%s %s fails, on a class alone it does not" % (op, what), key="%s|%s" % (rule, op))
        else:
            log.und(rule, e, "the operation is not seen to return")
        return True
    for (c, q), v in forms["A"][1:]:
        what = "on %s times a class" % show(c, q)
        if fails("R1", v, what):
            continue
        refs = [scale(u, c, q) for u in units["A"][:2]]
        verdict(log, "R1", e, op, v, next((r for r in refs if v is not None and comparable(v, r, I)), refs[0] if refs else None), what, I)
    for (c1, q1), (c2, q2) in SUMS:
        v = val([(c1, q1, "A"), (c2, q2, "B")])
        what = "on %s times a class plus %s times another" % (show(c1, q1), show(c2, q2))
        if fails("R2", v, what):
            continue
        refs = [add(scale(a, c1, q1), scale(b, c2, q2)) for a in units["A"][:2] for b in units["B"][:2]]
        refs = [r for r in refs if r is not None]
        verdict(log, "R2", e, op, v, next((r for r in refs if v is not None and comparable(v, r, I)), refs[0] if refs else None), what, I)
    if pos == 0 and op in ("act", "qact"):
        # numbers and parameters act as well
        for c, q in [(4, ()), (-1, (("q", 2),))]:
            n = val([(c, q, None)])
            for lead in ((3, ()), (1, (("q1", 1),))):
                v = val([lead + ("A",), (c, q, None)])
                what = "on %s times a class plus %s" % (show(*lead), show(c, q))
                if fails("R2", v, what):
                    continue
                refs = [add(scale(a, *lead), n) for a in units["A"][:2]] if n not in (None, FAILS) else []
                refs = [r for r in refs if r is not None]
                verdict(log, "R2", e, op, v, next((r for r in refs if v is not None and comparable(v, r, I)), refs[0] if refs else None), what, I)
