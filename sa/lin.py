"""Linear forms over named integer unknowns, and conjunctions of linear
inequalities (a small polyhedral abstract domain, decided by Fourier-Motzkin
elimination with integer tightening).  Nothing here executes code of /repo and
no external solver is used."""
from math import gcd


class Lin:
    """const + sum coef*sym, coefs are ints; symbols are any hashable."""
    __slots__ = ("c", "t", "_h")

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = tuple(sorted(((s, k) for s, k in dict(t).items() if k != 0),
                              key=lambda x: repr(x[0])))
        self._h = hash((self.c, self.t))

    @staticmethod
    def sym(s):
        return Lin(0, ((s, 1),))

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __hash__(self):
        return self._h

    def is_const(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        d = dict(self.t)
        for s, k in o.t:
            d[s] = d.get(s, 0) + k
        return Lin(self.c + o.c, d)

    def scale(self, k):
        return Lin(self.c * k, [(s, c * k) for s, c in self.t])

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + o.scale(-1)

    def syms(self):
        return {s for s, _ in self.t}

    def subst(self, m):
        r = Lin(self.c)
        for s, k in self.t:
            r = r + (m[s].scale(k) if s in m else Lin(0, ((s, k),)))
        return r

    def __repr__(self):
        out = []
        for s, k in self.t:
            nm = s if isinstance(s, str) else symname(s)
            out.append(("%+d*%s" % (k, nm)) if abs(k) != 1 else ("+" if k > 0 else "-") + nm)
        if self.c or not out:
            out.append("%+d" % self.c)
        r = "".join(out)
        return r[1:] if r.startswith("+") else r


def symname(s):
    if isinstance(s, str):
        return s
    if isinstance(s, tuple):
        return "(" + " ".join(symname(x) if isinstance(x, (str, tuple)) else repr(x) for x in s) + ")"
    return repr(s)


def norm(e):
    """normalise e >= 0 (divide by gcd, floor the constant)"""
    if not e.t:
        return e
    g = 0
    for _, k in e.t:
        g = gcd(g, abs(k))
    if g > 1:
        return Lin(e.c // g, [(s, k // g) for s, k in e.t])
    return e


def infeasible(cons, limit=400):
    """True only if the conjunction {e >= 0} has no integer solution (sound);
    False means 'not shown infeasible'."""
    cs = set()
    for e in cons:
        e = norm(e)
        if not e.t:
            if e.c < 0:
                return True
            continue
        cs.add(e)
    while cs:
        # equalities first: e and -e both present -> substitute unit-coefficient symbol
        eq = None
        for e in cs:
            if -e in cs:
                for s, k in e.t:
                    if abs(k) == 1:
                        eq = (e, s, k)
                        break
            if eq:
                break
        if eq:
            e, s, k = eq
            # k*s + rest = 0  ->  s = -rest/k
            rest = e - Lin(0, ((s, k),))
            m = {s: rest.scale(-k)}
            new = set()
            for f in cs:
                f = norm(f.subst(m))
                if not f.t:
                    if f.c < 0:
                        return True
                    continue
                new.add(f)
            cs = new
            continue
        # pick the symbol with least product
        cnt = {}
        for e in cs:
            for s, k in e.t:
                p, n = cnt.get(s, (0, 0))
                cnt[s] = (p + (k > 0), n + (k < 0))
        s = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1], repr(x)))
        pos, neg, rest = [], [], set()
        for e in cs:
            k = dict(e.t).get(s, 0)
            if k > 0:
                pos.append((k, e))
            elif k < 0:
                neg.append((-k, e))
            else:
                rest.add(e)
        for kp, p in pos:
            for kn, q in neg:
                f = norm(p.scale(kn) + q.scale(kp))
                if not f.t:
                    if f.c < 0:
                        return True
                    continue
                rest.add(f)
        if len(rest) > limit:
            return False
        cs = rest
    return False


class Cons:
    """a conjunction of e>=0 facts and e!=0 facts"""
    __slots__ = ("ge", "ne")

    def __init__(self, ge=frozenset(), ne=frozenset()):
        self.ge = frozenset(ge)
        self.ne = frozenset(ne)

    def __eq__(self, o):
        return self.ge == o.ge and self.ne == o.ne

    def __hash__(self):
        return hash((self.ge, self.ne))

    def _relevant(self, syms):
        syms = set(syms)
        pool = list(self.ge)
        out = []
        changed = True
        while changed:
            changed = False
            rest = []
            for e in pool:
                if e.syms() & syms:
                    out.append(e)
                    syms |= e.syms()
                    changed = True
                else:
                    rest.append(e)
            pool = rest
        return out

    def entails_ge(self, e):
        if e.is_const():
            return e.c >= 0
        return infeasible(self._relevant(e.syms()) + [-e - 1])

    def entails_eq(self, e):
        if e.is_const():
            return e.c == 0
        return self.entails_ge(e) and self.entails_ge(-e)

    def entails_ne(self, e):
        if e.is_const():
            return e.c != 0
        if e in self.ne or -e in self.ne:
            return True
        return infeasible(self._relevant(e.syms()) + [e, -e])

    def add_ge(self, e):
        e = norm(e)
        if e.is_const():
            return self if e.c >= 0 else None
        if infeasible(self._relevant(e.syms()) + [e]):
            return None
        c = Cons(self.ge | {e}, self.ne)
        return c._tighten()

    def add_eq(self, e):
        c = self.add_ge(e)
        c = c and c.add_ge(-e)
        if c is None:
            return None
        for n in c.ne:
            if c.entails_eq(n):
                return None
        return c

    def add_ne(self, e):
        if e.is_const():
            return self if e.c != 0 else None
        if self.entails_eq(e):
            return None
        return Cons(self.ge, self.ne | {e})._tighten()

    def _tighten(self):
        c = self
        for n in list(c.ne):
            if n not in c.ne:
                continue
            if c.entails_ge(n):
                c = Cons(c.ge | {norm(n - 1)}, c.ne - {n})
            elif c.entails_ge(-n):
                c = Cons(c.ge | {norm(-n - 1)}, c.ne - {n})
        return c

    def join(self, o):
        if self is o or self == o:
            return self
        ge = [e for e in self.ge if e in o.ge or o.entails_ge(e)]
        ge += [e for e in o.ge if e not in self.ge and self.entails_ge(e)]
        ne = [e for e in self.ne if o.entails_ne(e)]
        ne += [e for e in o.ne if self.entails_ne(e)]
        return Cons(ge, ne)

    def restrict(self, syms):
        """facts mentioning only symbols connected to syms (for memo keys)"""
        return frozenset(self._relevant(syms)), frozenset(e for e in self.ne if e.syms() & set(syms))

    def __repr__(self):
        return " & ".join(sorted(["%r>=0" % e for e in self.ge] + ["%r!=0" % e for e in self.ne]))
