"""Abstract domain: atoms, abstract values (AV), heap objects, states.

An AV is a frozenset of Atom.  An Atom is (kind, payload, labels).

kind      payload
none      None
bool      True / False / None(unknown)
int       Lin / None(unknown)
float     None
str       const str / StrD / None
sym       Sym (a sympy expression)
ref       site (key of State.heap)
fn        Fn
bm        (receiver Atom, callable Atom)           bound method
cls       ClassObj
mod       module name
ext       dotted name of something outside the analysed package
extobj    (dotted type name, detail)               instance of an external type
memo      Memo                                     functools cache around a function
nimpl     None                                     NotImplemented
top       None
"""
from fractions import Fraction
from .lin import Lin, Cons

EMPTY = frozenset()


class Atom:
    __slots__ = ("k", "p", "l", "_h")

    def __init__(self, k, p=None, l=EMPTY):
        self.k = k
        self.p = p
        self.l = l
        self._h = hash((k, p, l))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Atom) and self._h == o._h and self.k == o.k
                             and self.p == o.p and self.l == o.l)

    def with_l(self, l):
        return self if l == self.l else Atom(self.k, self.p, l)

    def __repr__(self):
        return "%s(%r)%s" % (self.k, self.p, "{" + ",".join(sorted(map(str, self.l))) + "}" if self.l else "")


# ------------------------------------------------------------------ sympy values
class Sym:
    """cls: set of possible sympy classes among
         num  (a Number)   schur (a Symbol naming a Schubert class)
         q    (a quantum parameter)   var (another Symbol)
         add / mul / pow      other (anything else)
    form: mono | sum | unexp | unk      (see mul/add below)
    val : polynomial over opaque atoms (frozenset of (monomial, coef)) or None
    part: what the Schubert symbols inside index: () none of them, ("part?",) integer
          partitions, ("pair?",) pairs of lists, another tuple: exactly that list
          (content number), None: unknown"""
    __slots__ = ("cls", "form", "val", "part", "_h")
    ALL = frozenset(("num", "schur", "q", "var", "add", "mul", "pow", "other"))
    COMP = frozenset(("add", "mul", "pow", "other"))

    def __init__(self, cls=ALL, form="unk", val=None, part=None):
        self.cls = frozenset(cls)
        self.form = form
        self.val = val
        self.part = part
        self._h = hash((self.cls, form, val, part))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Sym) and self._h == o._h and (self.cls, self.form, self.val, self.part) == \
            (o.cls, o.form, o.val, o.part)

    def rep(self, **kw):
        d = dict(cls=self.cls, form=self.form, val=self.val, part=self.part)
        d.update(kw)
        return Sym(**d)

    def __repr__(self):
        return "Sym<%s %s %s>" % ("/".join(sorted(self.cls)), self.form, poly_str(self.val))


FORMS = ("mono", "sum", "unk", "unexp")


def form_join(a, b):
    if a == b:
        return a
    if "unexp" in (a, b):
        return "unexp"
    if "unk" in (a, b):
        return "unk"
    return "sum"


def form_add(a, b):
    if "unexp" in (a, b):
        return "unexp"
    if "unk" in (a, b):
        return "unk"
    return "sum"


def form_mul(a, b, a_num=False, b_num=False):
    if a_num:
        return b
    if b_num:
        return a
    if "unexp" in (a, b):
        return "unexp"
    if a == "mono" and b == "mono":
        return "mono"
    if "unk" in (a, b):
        return "unk"
    return "unexp"


MAXPOLY = 24


def poly_const(c):
    c = Fraction(c)
    return frozenset() if c == 0 else frozenset([((), c)])


def poly_atom(a):
    return frozenset([(((a, 1),), Fraction(1))])


def poly_add(p, q, k=1):
    if p is None or q is None:
        return None
    d = dict(p)
    for m, c in q:
        d[m] = d.get(m, 0) + c * k
    r = frozenset((m, c) for m, c in d.items() if c != 0)
    return r if len(r) <= MAXPOLY else None


def poly_mul(p, q):
    if p is None or q is None:
        return None
    d = {}
    for m1, c1 in p:
        for m2, c2 in q:
            e = dict(m1)
            for a, n in m2:
                e[a] = e.get(a, 0) + n
            m = tuple(sorted(((a, n) for a, n in e.items() if n != 0), key=repr))
            d[m] = d.get(m, 0) + c1 * c2
    r = frozenset((m, c) for m, c in d.items() if c != 0)
    return r if len(r) <= MAXPOLY else None


def poly_is_const(p):
    if p is None:
        return None
    if not p:
        return Fraction(0)
    if len(p) == 1:
        (m, c), = p
        if m == ():
            return c
    return None


def atom_is_q(a):
    return isinstance(a, tuple) and a and a[0] == "q"


def poly_mod_q(p):
    if p is None:
        return None
    return frozenset((m, c) for m, c in p if not any(atom_is_q(a) and n > 0 for a, n in m))


def poly_str(p):
    if p is None:
        return "?"
    if not p:
        return "0"
    out = []
    for m, c in sorted(p, key=repr):
        f = "*".join((astr(a) if n == 1 else "%s^%s" % (astr(a), n)) for a, n in m)
        if not f:
            out.append(str(c))
        elif c == 1:
            out.append(f)
        else:
            out.append("%s*%s" % (c, f))
    return " + ".join(out)


def astr(a):
    if isinstance(a, tuple) and a and a[0] == "q":
        return str(a[1])
    if isinstance(a, tuple):
        s = "<" + " ".join(astr(x) for x in a) + ">"
        return s if len(s) < 90 else s[:87] + "..."
    if isinstance(a, frozenset):
        return poly_str(a) if all(isinstance(x, tuple) and len(x) == 2 for x in a) else "{..}"
    return str(a)


class StrD:
    """a non-constant string: kind in
         tmpl   : payload = tuple of parts (str | Lin | '?')
         expr   : text of a sympy expression, payload = Sym (table: enc/dec text form)
         schur  : text 'S[...]' of one Schubert class, payload = content number
         type   : a type name"""
    __slots__ = ("kind", "p", "_h")

    def __init__(self, kind, p=None):
        self.kind = kind
        self.p = p
        self._h = hash((kind, p))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, StrD) and self.kind == o.kind and self.p == o.p

    def __repr__(self):
        return "StrD(%s,%r)" % (self.kind, self.p)


class Fn:
    """a function value: code + closure frame + defaults"""
    __slots__ = ("node", "mod", "closure", "defaults", "kwdefaults", "qual", "cls", "kind", "_h")

    def __init__(self, node, mod, closure, defaults, kwdefaults, qual, cls=None, kind="function"):
        self.node = node
        self.mod = mod
        self.closure = closure       # site of the defining frame (or None)
        self.defaults = defaults     # tuple of AV
        self.kwdefaults = kwdefaults  # tuple of (name, AV)
        self.qual = qual
        self.cls = cls
        self.kind = kind
        self._h = hash((id(node), closure, defaults, kwdefaults, cls))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Fn) and self.node is o.node and self.closure == o.closure and
                             self.defaults == o.defaults and self.kwdefaults == o.kwdefaults and self.cls is o.cls)

    def rep(self, closure, defaults=None, kwdefaults=None):
        return Fn(self.node, self.mod, closure, self.defaults if defaults is None else defaults,
                  self.kwdefaults if kwdefaults is None else kwdefaults, self.qual, self.cls, self.kind)

    def __repr__(self):
        return "Fn<%s>" % self.qual


class Memo:
    """functools.lru_cache(...)(inner); attrs copied by wraps are ignored"""
    __slots__ = ("inner", "where", "_h")

    def __init__(self, inner, where):
        self.inner = inner      # Atom
        self.where = where
        self._h = hash(("memo", inner))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Memo) and self.inner == o.inner

    def __repr__(self):
        return "Memo<%r>" % self.inner


class ClassObj:
    __slots__ = ("name", "mod", "bases", "node", "site", "mro")

    def __init__(self, name, mod, bases, node, site):
        self.name = name
        self.mod = mod
        self.bases = bases      # list of ClassObj or ext dotted str
        self.node = node
        self.site = site        # heap site of namespace
        self.mro = self._mro()

    def _mro(self):
        seqs = []
        for b in self.bases:
            seqs.append(list(b.mro) if isinstance(b, ClassObj) else [b])
        seqs.append(list(self.bases))
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                return out
            out.append(c)
            for s in seqs:
                if s[0] is c or s[0] == c:
                    del s[0]

    def __repr__(self):
        return "Class<%s>" % self.name


# ------------------------------------------------------------------ heap objects
class Obj:
    __slots__ = ("kind", "cls", "fields", "items", "elem", "len", "flags", "summary", "vn", "ordt", "keyl", "_h")

    def __init__(self, kind, cls=None, fields=None, items=None, elem=EMPTY, len=None, flags=EMPTY,
                 summary=False, vn=None, ordt=False, keyl=EMPTY):
        self.kind = kind
        self.cls = cls
        self.fields = fields or {}
        self.items = items      # tuple of AV or None
        self.elem = elem        # AV of elements when items is None (dict: values)
        self.len = len          # Lin or None
        self.flags = flags
        self.summary = summary
        self.vn = vn            # content number (hashable) or None
        self.ordt = ordt        # order of elements depends on hash order
        self.keyl = keyl        # dict: AV of keys
        self._h = None

    def rep(self, **kw):
        d = dict(kind=self.kind, cls=self.cls, fields=self.fields, items=self.items, elem=self.elem,
                 len=self.len, flags=self.flags, summary=self.summary, vn=self.vn, ordt=self.ordt, keyl=self.keyl)
        d.update(kw)
        return Obj(**d)

    def sig(self):
        return (self.kind, self.cls, tuple(sorted(self.fields.items(), key=lambda kv: kv[0])), self.items, self.elem,
                self.len, self.flags, self.summary, self.vn, self.ordt, self.keyl)

    def __eq__(self, o):
        return self is o or (isinstance(o, Obj) and self.kind == o.kind and (self.cls is o.cls or self.cls == o.cls) and
                             self.fields == o.fields and self.items == o.items and self.elem == o.elem and
                             self.len == o.len and self.flags == o.flags and self.summary == o.summary and
                             self.vn == o.vn and self.ordt == o.ordt and self.keyl == o.keyl)

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.sig())
        return self._h

    def elems(self):
        if self.items is not None:
            r = EMPTY
            for x in self.items:
                r = av_join(r, x)
            return r
        return self.elem

    def __repr__(self):
        return "Obj<%s %s f=%s items=%s elem=%s len=%r fl=%s vn=%r%s>" % (
            self.kind, self.cls.name if isinstance(self.cls, ClassObj) else self.cls, self.fields, self.items,
            set(self.elem), self.len, sorted(self.flags), self.vn, " ORD" if self.ordt else "")


# ------------------------------------------------------------------ AV helpers
MERGE = ("int", "str", "sym", "bool", "float", "none", "top")


def av(*atoms):
    return frozenset(atoms)


def mk(k, p=None, l=EMPTY):
    return frozenset([Atom(k, p, l)])


def AInt(x, l=EMPTY):
    if isinstance(x, int):
        x = Lin(x)
    return mk("int", x, l)


NONE = mk("none")
TOP = mk("top")


def ABool(b=None, l=EMPTY):
    return mk("bool", b, l)


def AStr(s=None, l=EMPTY):
    return mk("str", s, l)


def ASym(sym=None, l=EMPTY):
    return mk("sym", sym or Sym(), l)


def part_join(a, b):
    if a == b:
        return a
    if a == ():
        return b
    if b == ():
        return a
    if a is None or b is None:
        return None
    pa, pb = a[0] == "pair?", b[0] == "pair?"
    if pa and pb:
        return ("pair?",)
    if not pa and not pb:
        return ("part?",)
    return None


def part_coarse(a):
    """forget which list, keep its shape"""
    if a is None or a == ():
        return a
    return ("pair?",) if a[0] == "pair?" else ("part?",)


def text_sym(s):
    """the sympy value a simple constant text denotes (numbers and quantum parameters)"""
    import re
    if re.fullmatch(r"-?\d+", s):
        return Sym(["num"], "mono", poly_const(int(s)), ())
    if re.fullmatch(r"q\d*", s):
        return Sym(["q"], "mono", poly_atom(("q", s)), ())
    return None


def sym_join(a, b):
    if a == b:
        return a
    return Sym(a.cls | b.cls, form_join(a.form, b.form), a.val if a.val == b.val else None,
               part_join(a.part, b.part))


def str_join(a, b):
    if a == b:
        return a
    if isinstance(a, StrD) and isinstance(b, StrD) and a.kind == b.kind:
        if a.kind == "expr":
            return StrD("expr", sym_join(a.p, b.p))
        if a.kind in ("schur", "listtext", "schurlist"):
            return StrD(a.kind, part_join(a.p, b.p))
    if isinstance(a, StrD) and isinstance(b, StrD) and {a.kind, b.kind} == {"expr", "schur"}:
        e = a if a.kind == "expr" else b
        o = b if e is a else a
        return StrD("expr", sym_join(e.p, Sym(["schur"], "mono", None, o.p)))
    if isinstance(a, str) and isinstance(b, StrD):
        a, b = b, a
    if isinstance(a, StrD) and isinstance(b, str) and a.kind in ("expr", "schur"):
        y = text_sym(b)
        if y is not None:
            return StrD("expr", sym_join(a.p if a.kind == "expr" else Sym(["schur"], "mono", None, a.p), y))
    return None


def av_join(a, b):
    if a is b or a == b:
        return a
    if not a:
        return b
    if not b:
        return a
    out = {}
    rest = set()
    for x in list(a) + list(b):
        if x.k in MERGE:
            if x.k in out:
                y = out[x.k]
                if y == x:
                    continue
                l = x.l | y.l
                if x.k == "sym":
                    p = sym_join(x.p, y.p)
                elif x.k == "str":
                    p = str_join(x.p, y.p)
                elif x.k == "bool":
                    p = x.p if x.p == y.p else None
                else:
                    p = x.p if x.p == y.p else None
                out[x.k] = Atom(x.k, p, l)
            else:
                out[x.k] = x
        else:
            rest.add(x)
    # merge same payload different labels
    byp = {}
    for x in rest:
        key = (x.k, x.p)
        if key in byp:
            byp[key] = byp[key].with_l(byp[key].l | x.l)
        else:
            byp[key] = x
    return frozenset(list(out.values()) + list(byp.values()))


def av_labels(a):
    l = EMPTY
    for x in a:
        l |= x.l
    return l


def av_add_labels(a, l):
    if not l or not a:
        return a
    return frozenset(x.with_l(x.l | l) for x in a)


def av_drop(a, k):
    return frozenset(x for x in a if x.k != k)


def av_one(a, k):
    """the single atom of a if a is exactly one atom of kind k"""
    if len(a) == 1:
        x, = a
        if x.k == k:
            return x
    return None


def av_kinds(a):
    return {x.k for x in a}


def const_of(a):
    """python constant if AV is a single known constant"""
    if len(a) != 1:
        return False, None
    x, = a
    if x.k == "none":
        return True, None
    if x.k == "bool" and x.p is not None:
        return True, x.p
    if x.k == "int" and isinstance(x.p, Lin) and x.p.is_const():
        return True, x.p.c
    if x.k == "str" and isinstance(x.p, str):
        return True, x.p
    return False, None


# ------------------------------------------------------------------ state
class State:
    __slots__ = ("heap", "cons", "exact", "pc")

    def __init__(self, heap=None, cons=None, exact=True, pc=EMPTY):
        self.heap = heap if heap is not None else {}
        self.cons = cons if cons is not None else Cons()
        self.exact = exact       # no undecided branch was taken
        self.pc = pc             # labels of the conditions decided so far (within the current function)

    def copy(self):
        return State(dict(self.heap), self.cons, self.exact, self.pc)

    def set(self, o):
        self.heap = o.heap
        self.cons = o.cons
        self.exact = o.exact
        self.pc = o.pc

    def __eq__(self, o):
        return self.heap == o.heap and self.cons == o.cons


def obj_join(a, b, owner=None):
    if a is b or a == b:
        return a
    if a.kind != b.kind or (a.cls is not b.cls and a.cls != b.cls):
        if a.kind == "frame" or b.kind == "frame":
            raise AssertionError("frame kind mismatch")
        return Obj("opaque", flags=a.flags | b.flags, summary=True, elem=av_join(a.elems(), b.elems()))
    fields = dict(a.fields)
    for k, v in b.fields.items():
        if k in fields:
            fields[k] = av_join(fields[k], v)
        else:
            # defined on one side only: an attribute/variable that may be unbound
            fields[k] = av_join(v, UNBOUND)
    for k in a.fields:
        if k not in b.fields:
            fields[k] = av_join(fields[k], UNBOUND)
    if a.items is not None and b.items is not None and len(a.items) == len(b.items):
        items = tuple(av_join(x, y) for x, y in zip(a.items, b.items))
        elem = EMPTY
    else:
        items = None
        elem = av_join(a.elems(), b.elems())
    return Obj(a.kind, a.cls, fields, items, elem, a.len if a.len == b.len else None, a.flags | b.flags,
               a.summary or b.summary, a.vn if a.vn == b.vn else None, a.ordt or b.ordt, av_join(a.keyl, b.keyl))


UNBOUND = mk("unbound")


def state_join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a is b:
        return a
    heap = dict(a.heap)
    bc = None
    for s, o in b.heap.items():
        if s in heap:
            x = heap[s]
            if x is not o:
                j = obj_join(x, o)
                heap[s] = j
        else:
            heap[s] = o
    return State(heap, a.cons.join(b.cons), a.exact and b.exact, a.pc | b.pc)


def join_all(states):
    r = None
    for s in states:
        r = state_join(r, s)
    return r


def strong(x):
    """a label of something that varies between runs and that branches may depend on"""
    return isinstance(x, str) and x.startswith("nondet:") and not x.startswith("nondet:set order")
