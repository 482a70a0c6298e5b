"""The data a space reports about itself are those of the space it was built as."""
from .common import *

EXPLAIN = ("Abstract interpretation of the constructors and descriptors with the dimensions m and N as symbols: every reported number "
           "is a linear form in them and is compared with the form it must be, for all dimensions of a family at once.")
RULES = {"R1": "get_type_data reports type, k, n, name, m, N and the degree of q of the space",
         "R2": "degree_q is the degree of q of the space",
         "R3": "the printed description shows the same data",
         "R4": "a clone is a new object of the same class with the same data",
         "R5": "the point class and the generators have as many parts, and are as many, as the dimensions say"}
MIN = 40
NAME = {"A": "Gr", "C": "IG", "B": "OG", "D": "OG"}


def tasks(tier):
    return ALLTASKS


def reference(fam, sp):
    """k, n, degree of q, by family, from the constructor's arguments m and N"""
    M, N, k = sp.m, sp.N, sp.k
    if fam == "A":
        return k, N, N
    if fam == "C":
        return k, h, N + 1 - M
    if fam == "B":
        zero = sp.s.st.cons.entails_eq(k)
        return k, h, h.scale(2) if zero else N - M - 1
    zero = sp.s.st.cons.entails_eq(k)
    return k, h - 1, (h.scale(2) - 2) if zero else N - M - 1


def same(s, v, want):
    """True / False / None(unknown): is the abstract value exactly want (a Lin or a str)"""
    res = True
    if not v:
        return None
    for a in v:
        if isinstance(want, str):
            if a.k == "str" and isinstance(a.p, str):
                if a.p != want:
                    return False
            elif a.k in ("int", "none", "float", "bool", "ref"):
                return False
            else:
                res = None
        elif a.k == "int" and isinstance(a.p, Lin):
            if s.st.cons.entails_eq(a.p - want):
                continue
            if a.p.syms() <= {"m", "h"}:
                return False
            res = None
        elif a.k in ("str", "none", "ref"):
            return False
        else:
            res = None
    return res


def run(I, task, log, tier):
    fam, i = task
    reg = regimes(fam)[i]

    def judge(c, rule, what, ok, e):
        if ok is None:
            log.und(rule, e, "%s not known exactly" % what)
        elif ok:
            log.ok(rule)
        else:
            log.viol(rule, e, e, "%s is not that of the space" % what, key="%s|%s|%s" % (rule, e.split(".")[-1], what))

    def data(c, v, rule, e, ref):
        """judge a list of type data; returns nothing"""
        s = c.sp.s
        os_ = [o for a, o in result_objs(s, v)]
        if len(os_) != 1 or os_[0] is None or os_[0].kind not in ("list", "tuple") or os_[0].items is None:
            if os_ and os_[0] is not None and os_[0].kind in ("list", "tuple") and os_[0].len is not None and not (
                    s.st.cons.entails_eq(os_[0].len - Lin(7))) and os_[0].len.is_const():
                judge(c, rule, "the number of data", False, e)
            else:
                log.und(rule, e, "the data are not a list of known entries")
            return
        it = os_[0].items
        want = [fam, ref[0], ref[1], NAME[fam], c.sp.m, c.sp.N, ref[2]]
        if len(it) != len(want):
            judge(c, rule, "the number of data", False, e)
            return
        for w, x, nm in zip(want, it, ("type", "k", "n", "name", "m", "N", "the degree of q")):
            judge(c, rule, nm, same(s, x, w), e)

    def fn(c):
        e = "%s.%s" % (reg[0], c.op)
        s = c.sp.s
        ref = reference(fam, c.sp)
        for ex, _ in c.out.raises:
            if not ex.partial:
                log.und("R1", e, "may raise %s" % ex.name)
        if not c.out.normal:
            log.viol("R1", e, e, "never returns on a valid space: %s" % c.out.raises[0][0].msg)
            return
        if c.op == "get_type_data":
            data(c, c.out.ret, "R1", e, ref)
        elif c.op == "degree_q":
            judge(c, "R2", "the degree of q", same(s, c.out.ret, ref[2]), e)
        elif c.op == "__str__":
            a, = c.out.ret if len(c.out.ret) == 1 else (None,)
            if a is None or a.k != "str" or not isinstance(a.p, StrD) or a.p.kind != "tmpl" or "?" in a.p.p:
                log.und("R3", e, "the text is not known")
                return
            nums = [x for x in a.p.p if isinstance(x, Lin)]
            txt = "".join(x for x in a.p.p if isinstance(x, str))
            want = [ref[0], ref[1], c.sp.m, c.sp.N, ref[2]]
            ok = len(nums) == len(want) and all(same(s, AInt(x), w) for x, w in zip(nums, want))
            if len(nums) == len(want) and not ok and not all(x.syms() <= {"m", "h"} for x in nums):
                ok = None
            elif len(nums) != len(want):
                ok = None
            judge(c, "R3", "the printed data", ok, e)
            judge(c, "R3", "the printed type and name", True if ("Type " + fam) in txt and NAME[fam] + "(" in txt else (
                None if NAME[fam] in txt and fam in txt else False), e)
        elif c.op == "clone":
            g0, = c.sp.gr
            for a, o in result_objs(s, c.out.ret):
                if o is None or o.kind != "inst":
                    log.und("R4", e, "the clone is not known")
                    continue
                judge(c, "R4", "the identity", a.p != g0.p, e)
                judge(c, "R4", "the class", o.cls == s.obj(c.sp.gr).cls, e)
            r = s.method(c.out.ret, "get_type_data")
            if r.normal:
                data(c, r.ret, "R4", e, ref)
            # what the clone computes with: the dimensions given to the Pieri rule are fields
        elif c.op in ("point_class", "generators"):
            zero = s.st.cons.entails_eq(c.sp.k)
            kk, M = c.sp.k, c.sp.m
            if c.op == "generators":
                want = {"A": kk, "C": ref[1] + kk, "B": ref[1] + kk, "D": ref[1] + kk + (0 if zero else 1)}[fam]
                m0 = s.st.cons.entails_eq(M)
                some0 = not s.st.cons.entails_ge(M - 1)
                if some0 and not m0:
                    want = None     # a point has no generators; the family mixes it in
                elif m0:
                    want = Lin(0)
            else:
                want = M
                if fam == "D" and zero:
                    want = M - 1
                if fam == "A" and zero:
                    want = Lin(0)
            for a, o in result_objs(s, c.out.ret):
                if o is not None and o.kind == "inst":
                    ps = [p for b, p in result_objs(s, o.fields.get("p", EMPTY))]
                else:
                    ps = [o]
                for p in ps:
                    if p is None or want is None:
                        log.und("R5", e, "length not known")
                        continue
                    L = Lin(len(p.items)) if p.items is not None else p.len
                    judge(c, "R5", "the number of parts" if c.op == "point_class" else "the number of generators",
                          None if L is None else same(s, AInt(L), want), e)
            if c.op == "point_class" and fam == "A" and not zero:
                for a, o in result_objs(s, c.out.ret):
                    for b, p in result_objs(s, o.fields.get("p", EMPTY)) if o is not None else ():
                        if p is not None:
                            judge(c, "R5", "every part", same(s, p.elems(), kk) if p.elems() else True, e)

    def gen():
        work = [(reg, op, 0) for op in ("get_type_data", "degree_q", "__str__", "clone", "point_class")]
        for tag, extra in ((" m>=1", m - 1), (" m=0", m.scale(-1))):
            r = narrowed(reg, tag, [extra])
            if r is not None:
                work.append((r, "generators", 0))
        while work:
            r, op, depth = work.pop(0)
            parts = pieces(r, op) if depth < 5 else []
            log.count("regimes examined")
            if parts:
                # a condition on the dimensions decides what is reported: take its cases one by one
                work = [(x, op, depth + 1) for x in parts] + work
                continue
            yield lambda r=r, op=op: case(I, fam, r, op, ())

    def pieces(r, op):
        I.forget_results()
        I.splits = []
        try:
            log.guard("R1", r[0], lambda: case(I, fam, r, op, ()) and True, 20)
            sp = I.splits
        finally:
            I.splits = None
            I.forget_results()
        for kind, L in sp:
            if kind == "ge":
                cs = ((" %s>=0" % L, [L]), (" %s<0" % L, [-L - 1]))
            else:
                cs = ((" %s=0" % L, [L, -L]), (" %s>0" % L, [L - 1]), (" %s<0" % L, [-L - 1]))
            out = [narrowed(r, tag, cs) for tag, cs in cs]
            out = [x for x in out if x is not None]
            if len(out) > 1:
                return out
        return []
    foreach(I, task, log, "R1", gen(), fn)


def narrowed(reg, tag, extra):
    cs = Cons()
    for x in reg[1] + extra:
        cs = cs and cs.add_ge(x)
    return None if cs is None else (reg[0] + tag, reg[1] + extra) + reg[2:]
