"""Impossible requests are refused with an error."""
from .common import *

EXPLAIN = ("Abstract interpretation of constructors and operations on requests that have no meaning, with the dimensions as symbols "
           "under the constraint that makes them meaningless: every abstract path must end in an exception.  The same "
           "constructors are run under the constraints of the valid spaces, where no path may raise.")
RULES = {"R1": "a space with impossible dimensions is refused (ValueError, or TypeError for a wrong type)",
         "R2": "every valid space is accepted",
         "R3": "an operation without meaning on a space, or a malformed value, is refused"}
MIN = 20
CLS = {"A": MODS["A"], "C": MODS["C"], "BD": MODS["B"]}
h2 = h.scale(2)
# (label, class, constraints, m, N)
BAD = [("Grassmannian with m > n", "A", [m - h - 1, h], m, h),
       ("Grassmannian with negative m", "A", [-m - 1, h], m, h),
       ("Grassmannian with negative n", "A", [m, -h - 1], m, h),
       ("Grassmannian with negative m and n", "A", [-m - 1, -h - 1], m, h),
       ("IsotropicGrassmannian with odd n", "C", [m, h - m], m, h2 + 1),
       ("IsotropicGrassmannian with odd n and m > n/2", "C", [m - h - 1, h], m, h2 + 1),
       ("IsotropicGrassmannian with m > n/2", "C", [m - h - 1, h], m, h2),
       ("IsotropicGrassmannian with negative m", "C", [-m - 1, h], m, h2),
       ("IsotropicGrassmannian with negative n", "C", [m, -h - 1], m, h2),
       ("OrthogonalGrassmannian (odd) with m > n/2", "BD", [m - h - 1, h], m, h2 + 1),
       ("OrthogonalGrassmannian (even) with m > n/2", "BD", [m - h - 1, h], m, h2),
       ("OrthogonalGrassmannian (odd) with negative m", "BD", [-m - 1, h], m, h2 + 1),
       ("OrthogonalGrassmannian (even) with negative m", "BD", [-m - 1, h], m, h2),
       ("OrthogonalGrassmannian (odd) with negative n", "BD", [m, -h - 1], m, h2 + 1),
       ("OrthogonalGrassmannian (even) with negative n", "BD", [m, -h - 1], m, h2)]
WRONG = ("float", "str", "none", "list")
ERR = ("ValueError", "TypeError")


def tasks(tier):
    return ALLTASKS + ["dimensions", "values"]


def wrong(s, t):
    return {"float": lambda: mk("float"), "str": lambda: AStr("2"), "none": lambda: NONE,
            "list": lambda: s.lst([AInt(Lin(2))]), "dict": lambda: s.lst([], kind="dict"),
            "neg": lambda: s.lst([AInt(-pos(s, "x"))]), "negtail": lambda: s.lst([AInt(pos(s, "x")), AInt(-pos(s, "y"))]),
            "strs": lambda: s.lst([AStr("a"), AStr("b")])}[t]()


def pos(s, n):
    x = Lin.sym("int_" + n)
    s.st.cons = s.st.cons.add_ge(x - 1)
    return x


def refused(log, rule, e, out, kinds=None):
    if out.normal:
        # a normal exit is certain if nothing undecided led there, or if nothing on the way refuses such input
        if out.st.exact or not any(x.name in (kinds or ERR + ("Exception",)) for x, _ in out.raises):
            log.viol(rule, e, e, "is accepted")
        else:
            log.und(rule, e, "may be accepted")
        return
    odd = [x for x, _ in out.raises if kinds and x.name not in kinds]
    if odd:
        log.viol(rule, e, e, "is refused with a %s (%s) instead of %s" % (odd[0].name, odd[0].msg, " or ".join(kinds)))
        return
    log.ok(rule)


def class_has(I, which, name):
    s = Session(I)
    return I.class_lookup(next(iter(s.cls(*which))).p, name, s.st) is not None


def run(I, task, log, tier):
    if task == "dimensions":
        def dims(lab, cls, cs, M, N):
            def th():
                c = Cons()
                for x in cs:
                    c = c.add_ge(x)
                s = Session(I, c)
                return MCase(s, s.call(s.cls(*CLS[cls]), [AInt(M), AInt(N)]), lab, None, [], "ctor")
            return th

        def typ(cls, t, i):
            def th():
                c = Cons().add_ge(m).add_ge(h - m)
                s = Session(I, c)
                a = [AInt(m), AInt(h2)]
                a[i] = wrong(s, t)
                return MCase(s, s.call(s.cls(*CLS[cls]), a), "%s with a %s for %s" % (CLS[cls][1], t, "mn"[i]), None, [], "ctor")
            return th
        foreach(I, task, log, "R1", (dims(*b) for b in BAD), lambda c: refused(log, "R1", c.entry, c.out, ("ValueError",)))
        foreach(I, task, log, "R1", (typ(cl, t, i) for cl in CLS for t in WRONG for i in (0, 1)),
                lambda c: refused(log, "R1", c.entry, c.out, ("TypeError",)))
        return
    if task == "values":
        def ctor(which, t):
            def th():
                s = Session(I)
                a = wrong(s, t)
                return MCase(s, new(s, which, a), "%s(%s)" % (which[1], t), None, [a], "ctor")
            return th

        def gen():
            for t in ("none", "dict", "strs", "neg", "negtail"):
                yield ctor(LCM, t)
            for t in ("none", "float", "dict", "str", "strs", "neg", "negtail"):
                yield ctor(PAR, t)
        foreach(I, task, log, "R3", gen(), lambda c: refused(log, "R3", c.entry, c.out))

        def rng(i):
            def th():
                s = Session(I)
                r = made(s, PAR, arg(s, "list", "self"))
                a = [AInt(pos(s, "a")), AInt(pos(s, "b"))]
                a[i] = AInt(-pos(s, "c"))
                return MCase(s, s.method(r, "is_in_range", a), "Partition.is_in_range with a negative bound", r, a, "method")
            return th
        foreach(I, task, log, "R3", (rng(i) for i in (0, 1)), lambda c: refused(log, "R3", c.entry, c.out, ("ValueError",)))
        return
    fam, i = task
    reg = regimes(fam)[i]

    def valid():
        cs = Cons()
        for x in reg[1]:
            cs = cs.add_ge(x)
        s = Session(I, cs)
        return MCase(s, s.call(s.cls(*MODS[fam]), [AInt(reg[2]), AInt(reg[3])]), "%s: constructor" % reg[0], None, [], "ctor")

    def ok(c):
        sure = [x for x, _ in c.out.raises if not x.partial]
        if sure:
            log.viol("R2", c.entry, c.entry, "a valid space can be refused: %s: %s" % (sure[0].name, sure[0].msg))
        else:
            log.ok("R2")
    foreach(I, task, log, "R2", [valid], ok)
    if not log.rules.get("R2", [0])[0]:
        return

    def gen():
        for op in ("part2pair", "pair2part", "schub_type"):
            if unsupported(fam, op):
                for cb in combos(op, fam):
                    yield lambda op=op, cb=cb: case(I, fam, reg, op, cb)
    foreach(I, task, log, "R3", gen(), lambda c: refused(log, "R3", c.entry, c.out))

    # acting by something that is not a special class
    def two(sp):
        s = sp.s
        lst = s.lst([AInt(pos(s, "a"), frozenset(["P:expr"])), AInt(pos(s, "b"), frozenset(["P:expr"]))])
        return [made(s, SCH, lst), arg(s, "expr", "lc")]

    def empty(sp):
        return [made(sp.s, SCH, sp.s.lst([])), arg(sp.s, "expr", "lc")]

    def tail(sp):
        s = sp.s
        p = frozenset(["P:expr"])
        return [made(s, SCH, s.lst([AInt(pos(s, "a"), p), AInt(pos(s, "b"), p), AInt(0, p)])), arg(s, "expr", "lc")]

    def gen2():
        for op in ("act", "qact"):
            yield lambda op=op: case(I, fam, reg, op, ("class with two positive parts and a zero", "expr"), args=tail)
            yield lambda op=op: case(I, fam, reg, op, ("class with two positive parts", "expr"), args=two)
            yield lambda op=op: case(I, fam, reg, op, ("class of the empty partition", "expr"), args=empty)
        # the conversion of a class to the index of a special class
        if not class_has(I, MODS[fam], "spec2num"):
            return
        forms = {"class with two positive parts and a zero": lambda sp: tail(sp)[0], "class with two positive parts": lambda sp: two(sp)[0], "class of the empty partition": lambda sp: empty(sp)[0]}
        for nm, b in forms.items():
            yield lambda nm=nm, b=b: case(I, fam, reg, "spec2num", (nm,), args=lambda sp: [b(sp)])
            yield lambda nm=nm, b=b: case(I, fam, reg, "spec2num", ("symbol of the " + nm,),
                                          args=lambda sp: [sp.s.method(b(sp), "symbol", []).ret])
    foreach(I, task, log, "R3", gen2(), lambda c: refused(log, "R3", c.entry, c.out, ("ValueError",)))
