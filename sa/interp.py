"""Whole-package, context-sensitive, flow-sensitive abstract interpreter over
the Python syntax tree.  Function calls are analysed in isolation on a
canonical copy of the reachable heap and memoised (summaries)."""
import ast
from .lin import Lin, Cons
from .dom import *
from .load import Program, AnalysisBroken, scope_info, fn_args

MAX_UNROLL = 8
MAX_ITER = 14
MAX_KEYS = 14
GEN_DEPTH = 3
JOIN_EXTRA = 1
KEEP_EXTRA = 3
KEEP_KEYS = 200
DIMS = frozenset(("m", "h"))



SAME = ("nondet:hash", "nondet:object addresses")


def unhash(op, a, b):
    """whether two hash values are the same, or one is a key, does not vary between runs; their values do"""
    la, lb = av_labels(a), av_labels(b)
    if not any(str(x).startswith(SAME) for x in la | lb):
        return a, b
    if isinstance(op, (ast.In, ast.NotIn)) or isinstance(op, (ast.Eq, ast.NotEq)) and all(
            any(str(x).startswith(SAME) for x in y) for y in (la, lb)):
        drop = lambda v: frozenset(x.with_l(frozenset(y for y in x.l if not str(y).startswith(SAME))) for x in v)
        return drop(a), drop(b)
    return a, b



class Dead(Exception):
    """the current abstract state has no continuation"""


class Exc:
    __slots__ = ("name", "kind", "loc", "msg", "av", "partial")

    def __init__(self, name, kind, loc, msg="", av=TOP, partial=False):
        self.name = name
        self.kind = kind        # user | synth
        self.loc = loc
        self.msg = msg
        self.av = av
        self.partial = partial

    def key(self):
        return (self.name, self.kind, self.loc, self.msg)

    def __repr__(self):
        return "%s[%s] at %s %s" % (self.name, self.kind, fmt_loc(self.loc), self.msg)


def fmt_loc(loc):
    return "%s:%s (%s)" % (loc[0], loc[1], loc[2]) if loc else "?"


class Ev:
    __slots__ = ("kind", "loc", "data", "chain")

    def __init__(self, kind, loc, data, chain=()):
        self.kind = kind
        self.loc = loc
        self.data = data
        self.chain = chain

    def key(self):
        return (self.kind, self.loc, self.data)

    def __repr__(self):
        return "Ev(%s %s %r via %s)" % (self.kind, fmt_loc(self.loc), self.data, " > ".join(c[2] for c in self.chain))


class Summary:
    __slots__ = ("ret", "state", "raises", "events", "sitecount")

    def __init__(self, ret, state, raises, events):
        self.ret = ret
        self.state = state
        self.raises = raises
        self.events = events

    def same(self, o):
        if o is None:
            return False
        if self.ret != o.ret or (self.state is None) != (o.state is None):
            return False
        if self.state is not None and not (self.state.heap == o.state.heap and self.state.cons == o.state.cons):
            return False
        if set(self.raises) != set(o.raises):
            return False
        return True


class Ctx:
    """activation of one function (or module / class body)"""

    def __init__(self, interp, fn, frame, mod):
        self.fn = fn
        self.frame = frame
        self.mod = mod
        self.qual = fn.qual if fn else "<module>"
        self.returns = []
        self.breaks = None
        self.conts = None
        self.raises = []
        self.events = {}
        self.created = set()
        self.handling = []
        self.globals = set()
        self.nonlocals = set()
        self.locals = set()
        self.loopord = []
        self.yields = None
        self.rounds = ()          # of the loops over known items being run
        self.dstores = set()      # dictionaries written / looked up by this activation itself
        self.dloads = set()

    def loc(self, node):
        return (self.mod.rel, getattr(node, "lineno", 0), self.qual)


def wrap_site(c, x, coll):
    """name of callee site/symbol x seen from call node c"""
    y = x
    depth = 0
    while isinstance(y, tuple) and y and y[0] == "c":
        if y[1] == c:
            coll.add(y)
            return y
        y = y[2]
        depth += 1
    if depth > 10:
        # drop the outermost layers
        y = x
        while depth > 5:
            y = y[2]
            depth -= 1
        coll.add(("c", c, y))
        return ("c", c, y)
    return ("c", c, x)


def lost(x):
    """does a content number mention a forgotten symbol"""
    if isinstance(x, (tuple, frozenset)):
        return x == ("?lin",) or any(lost(y) for y in x)
    return False


class Inexact(Exception):
    """a value that is not known exactly"""


class Renamer:
    def __init__(self, fs, fl):
        self.fs = fs     # site -> site
        self.fl = fl     # symbol -> Lin or None
        self.cache = {}

    def lin(self, x):
        if x is None or x.is_const():
            return x
        r = Lin(x.c)
        for s, k in x.t:
            y = self.fl(s)
            if y is None:
                return None
            r = r + y.scale(k)
        return r

    def any(self, x):
        if isinstance(x, (str, int, bool, type(None), float)):
            return x
        if isinstance(x, (tuple, frozenset, Lin, Sym, StrD, Fn, Atom, Memo)):
            try:
                return self.cache[x]
            except KeyError:
                pass
            r = self._any(x)
            self.cache[x] = r
            return r
        return x

    def _any(self, x):
        if isinstance(x, Atom):
            return self.atom(x)
        if isinstance(x, tuple):
            return tuple(self.any(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(self.any(y) for y in x)
        if isinstance(x, Lin):
            r = self.lin(x)
            return r if r is not None else ("?lin",)
        if isinstance(x, Sym):
            v = self.any(x.val)
            if v is not x.val and lost(v):
                v = None
            return Sym(x.cls, x.form, v, self.any(x.part))
        if isinstance(x, StrD):
            return StrD(x.kind, self.any(x.p))
        if isinstance(x, Fn):
            return x.rep(self.fs(x.closure) if x.closure is not None else None,
                         tuple(self.any(d) for d in x.defaults),
                         tuple((n, self.any(d)) for n, d in x.kwdefaults))
        if isinstance(x, Memo):
            return Memo(self.any(x.inner), x.where)
        return x

    def atom(self, a):
        if a.k == "ref":
            return Atom("ref", self.fs(a.p), a.l)
        if a.k == "int":
            return Atom("int", self.lin(a.p) if isinstance(a.p, Lin) else a.p, a.l) if a.p is not None else a
        if a.k == "bool" and isinstance(a.p, tuple):
            l = self.lin(a.p[1])
            return Atom("bool", (a.p[0], l) if l is not None else None, a.l)
        if a.p is None or isinstance(a.p, (str, bool)):
            return a
        return Atom(a.k, self.any(a.p), a.l)

    def av(self, v):
        if not v:
            return v
        try:
            return self.cache[("av", v)]
        except KeyError:
            pass
        r = EMPTY
        ok = True
        new = []
        for x in v:
            y = self.any(x)
            if y is not x:
                ok = False
            new.append(y)
        if ok:
            r = v
        else:
            for y in new:
                r = av_join(r, frozenset([y]))
        self.cache[("av", v)] = r
        return r

    def obj(self, o):
        fields = {k: self.av(v) for k, v in o.fields.items()}
        items = tuple(self.av(v) for v in o.items) if o.items is not None else None
        ln = self.lin(o.len) if o.len is not None else None
        cls = o.cls
        if isinstance(cls, tuple) and cls and cls[0] == "frame":
            cls = ("frame", self.fs(cls[1]) if cls[1] is not None else None)
        return Obj(o.kind, cls, fields, items, self.av(o.elem), ln, o.flags, o.summary, self.any(o.vn), o.ordt,
                   self.av(o.keyl))

    def cons(self, c):
        def m(es):
            out = []
            for e in es:
                r = self.lin(e)
                if r is not None and not r.is_const():
                    out.append(r)
            return out
        return Cons(m(c.ge), m(c.ne))


def fn_sig(cb, cobjs, fn):
    """the code a call can reach through its arguments: contexts that pass different code are kept apart"""
    out = set()

    def atom(a):
        if a.k == "fn":
            out.add(id(a.p.node))
            for d in a.p.defaults:
                av(d)
        elif a.k == "bm":
            atom(a.p[1])
        elif a.k == "memo":
            atom(a.p.inner)
        elif a.k in ("static", "classm", "prop"):
            atom(a.p)
        elif a.k == "partial":
            atom(a.p[0])
            for x in a.p[1]:
                av(x)

    def av(v):
        for a in v:
            if a.k not in ("ref", "int", "str", "sym"):
                atom(a)
    for v in cb.values():
        av(v)
    for o in cobjs:
        for v in o.fields.values():
            av(v)
        for v in o.items or ():
            av(v)
        av(o.elem)
    return frozenset(out)


def lins_in(x, acc):
    """symbols of the Lins inside an AV / payload, in deterministic order"""
    if isinstance(x, Lin):
        for s, _ in x.t:
            if s not in acc:
                acc.append(s)
    elif isinstance(x, Atom):
        if x.p is not None and not isinstance(x.p, (str, bool)):
            lins_in(x.p, acc)
    elif isinstance(x, frozenset):
        if x:
            for y in sorted(x, key=repr):
                lins_in(y, acc)
    elif isinstance(x, tuple):
        for y in x:
            lins_in(y, acc)
    elif isinstance(x, Sym):
        if x.val:
            lins_in(x.val, acc)
        if x.part:
            lins_in(x.part, acc)
    elif isinstance(x, StrD):
        lins_in(x.p, acc)
    elif isinstance(x, Fn):
        for d in x.defaults:
            lins_in(d, acc)


class Exact:
    """content of abstract values that stand for exactly one concrete value each"""
    LIMIT = 400

    def __init__(self, I, st):
        self.I, self.st, self.seen = I, st, {}

    def token(self, n):
        acc = []
        lins_in(n, acc)
        if all(x in DIMS for x in acc):
            t = self.I.tokens
            return ("call", n[1], t.setdefault(n, len(t)))
        if self.size(n) > self.LIMIT:
            raise Inexact
        return n

    def size(self, n):
        return 1 + sum(self.size(x) for x in n) if isinstance(n, (tuple, frozenset)) else 1

    def av(self, v):
        if len(v) != 1:
            raise Inexact
        a, = v
        return self.atom(a)

    def atom(self, a):
        k = a.k
        if k == "int":
            if a.p is None:
                raise Inexact
            return ("i", a.p)
        if k == "sym":
            if a.p.val is None:
                raise Inexact
            return ("s", a.p.val)
        if k == "ref":
            return self.ref(a.p)
        if k == "fn":
            return self.fn(a.p)
        if k == "bm":
            return ("bm", self.atom(a.p[0]), self.atom(a.p[1]))
        if k == "memo":
            return self.atom(a.p.inner)
        if k in ("static", "classm", "prop"):
            return self.atom(a.p)
        ok, c = const_of(frozenset([a]))
        if ok:
            return ("k", type(c).__name__, c)
        if k in ("class", "module", "ext", "builtin", "extmod", "none"):
            return (k, repr(a.p))
        raise Inexact

    def ref(self, s):
        if s in self.seen:
            return ("ref", self.seen[s])
        if s in self.I.base and self.st.heap.get(s, self.I.base[s]) is self.I.base[s]:
            return ("base", repr(s))
        o = self.I.get(self.st, s)
        if o is None or o.summary:
            raise Inexact
        self.seen[s] = len(self.seen)
        if o.kind in ("list", "tuple"):
            if o.vn is not None and not lost(o.vn):
                return ("vn", o.kind, o.vn)
            if o.items is not None:
                return (o.kind, tuple(self.av(x) for x in o.items))
            raise Inexact
        if o.kind == "inst":
            return ("inst", getattr(o.cls, "name", repr(o.cls)), tuple((str(f), self.av(o.fields[f])) for f in sorted(o.fields, key=str)))
        raise Inexact

    def fn(self, f):
        out = []
        for d in f.defaults:
            out.append(self.av(d))
        for n, d in f.kwdefaults:
            out.append((n, self.av(d)))
        if f.closure is not None and f.closure not in self.I.base:
            for name in sorted(self.I.free_names(f.node)):
                s = f.closure
                while s is not None and s not in self.I.base:
                    fo = self.I.get(self.st, s)
                    if fo is None:
                        break
                    if name in fo.fields:
                        if (s, name) in self.seen:
                            out.append(("ref", self.seen[s, name]))
                        else:
                            self.seen[s, name] = len(self.seen)
                            out.append((name, self.av(fo.fields[name])))
                        break
                    s = fo.cls[1] if isinstance(fo.cls, tuple) else None
        return ("fn", f.node._nid, tuple(out))


class Interp:
    def __init__(self, program):
        self.prog = program
        self.memo = {}
        self.nkeys = {}
        self.prov = []            # keys of summaries that rest on an unfinished recursion
        self.providx = {}
        self.stack = []           # in-progress calls: dict(key,fn,summary,used,dep)
        self.base = {}
        State.BASE = self.base
        self.ctx = None
        self.imported = {}
        self.classes = {}
        self.notes = {}           # things not modelled
        self.analysed = set()     # quals analysed
        self.ncalls = 0
        self.nbodies = 0
        self.lossy = False
        self.splits = None          # collects undecided conditions on the dimensions
        self.watch = {}           # external name -> list of the calls made to it
        self.hooks = {}           # fn node -> callable(interp, fn, args, st, run) -> AV
        self.post = {}            # fn node -> callable after call
        self.dedup_sites = set()
        self.opaque_rules = None
        self.naming = False       # name unknown results of calls by the call (function and exact arguments)
        self.tokens = {}
        self.gen_depth = GEN_DEPTH
        from .models import Models
        self.models = Models(self)

    # ------------------------------------------------------------- heap access
    def get(self, st, s):
        o = st.heap.get(s)
        if o is None:
            o = self.base.get(s)
        return o

    def put(self, st, s, o):
        st.heap[s] = o

    def nid(self, node):
        """identity of a program point; the rounds of a loop over known items are told apart when results are named"""
        return node._nid if not self.naming or not self.ctx.rounds else (node._nid,) + self.ctx.rounds

    def alloc(self, st, node, obj, tag=""):
        s = ("s", self.nid(node), tag)
        old = self.get(st, s)
        if old is not None:
            obj = obj_join(old, obj.rep(summary=True)).rep(summary=True)
        st.heap[s] = obj
        return frozenset([Atom("ref", s)])

    def new_list(self, st, node, items=None, elem=EMPTY, ln=None, tag="", kind="list", vn=None, ordt=False, l=EMPTY):
        if items is not None:
            items = tuple(items)
            ln = Lin(len(items))
        r = self.alloc(st, node, Obj(kind, None, None, items, elem, ln, vn=vn, ordt=ordt), tag)
        return av_add_labels(r, l)

    def fresh(self, st, node, tag=""):
        s = ("y", self.nid(node), tag)
        if s in self.ctx.created:
            self.forget(st, s)
        self.ctx.created.add(s)
        return s

    def forget(self, st, sym):
        self.forget_many(st, {sym})

    def forget_many(self, st, syms):
        ge = [e for e in st.cons.ge if not (e.syms() & syms)]
        ne = [e for e in st.cons.ne if not (e.syms() & syms)]
        if len(ge) != len(st.cons.ge) or len(ne) != len(st.cons.ne):
            st.cons = Cons(ge, ne)
        ren = Renamer(lambda s: s, lambda s: None if s in syms else Lin.sym(s))
        for s, o in list(st.heap.items()):
            if self.mentions(o, syms):
                st.heap[s] = ren.obj(o)

    def mentions(self, o, syms):
        acc = []
        if o.len is not None and o.len.syms() & syms:
            return True
        for v in o.fields.values():
            lins_in(v, acc)
        if o.items is not None:
            for v in o.items:
                lins_in(v, acc)
        lins_in(o.elem, acc)
        lins_in(o.keyl, acc)
        if isinstance(o.vn, tuple):
            lins_in(o.vn, acc)
        return bool(syms & set(acc))

    # ------------------------------------------------------------- events / errors
    def ev(self, kind, node, data, loc=None):
        c = self.ctx
        e = Ev(kind, loc or c.loc(node), data)
        k = e.key()
        if k not in c.events:
            c.events[k] = e
            if self.sink is not None:
                self.sink[k] = e

    sink = None
    any_order = False       # the order of sorted lists does not matter to what is asked

    def named(self, depth=GEN_DEPTH):
        """context in which unknown results are named by the call that gave them; depth: recursive calls told apart"""
        import contextlib

        @contextlib.contextmanager
        def go():
            keep = self.memo, self.nkeys, self.prov, self.providx, self.hooks
            self.memo, self.nkeys, self.prov, self.providx, self.hooks = {}, {}, [], {}, dict(self.hooks)
            self.naming = True
            self.gen_depth = depth
            try:
                yield
            finally:
                self.gen_depth = GEN_DEPTH
                self.memo, self.nkeys, self.prov, self.providx, self.hooks = keep
                self.naming = False
        return go()

    def token_names(self):
        """what the tokens of exact contents stand for"""
        inv = getattr(self, "_inv", None)
        if inv is None:
            inv = self._inv = {}
        if len(inv) < len(self.tokens):
            for k, v in self.tokens.items():
                inv[v] = k
        return inv

    def forget_results(self):
        """drop the summaries gathered so far (they are joined when there are too many)"""
        self.reset()
        self.memo, self.nkeys = {}, {}

    def reset(self):
        """forget the analysis in progress (after a timeout)"""
        self.stack.clear()
        self.prov.clear()
        self.providx.clear()

    def note(self, kind, what, node=None):
        k = (kind, what)
        if k not in self.notes:
            self.notes[k] = self.ctx.loc(node) if (node is not None and self.ctx) else None

    def do_raise(self, st, exc):
        self.ctx.raises.append((exc, st))
        raise Dead()

    def synth(self, st, node, name, msg, partial=False):
        """a run-time error the interpreter can see; partial: only some values fail"""
        e = Exc(name, "synth", self.ctx.loc(node), msg, mk("extobj", (name, None)), partial)
        if partial:
            self.ctx.raises.append((e, st.copy()))
            return
        self.do_raise(st, e)

    # ------------------------------------------------------------- modules
    def load_module(self, name):
        if name in self.imported:
            return
        m = self.prog.modules.get(name)
        if m is None:
            return
        # parents first
        if "." in name:
            self.load_module(name.rsplit(".", 1)[0])
            if name in self.imported:
                return
        self.imported[name] = m
        st = self.initst
        site = ("module", name)
        st.heap[site] = Obj("module", None, {"__name__": AStr(name), "__file__": AStr(m.path)}, flags=frozenset(["global:" + name]))
        save = self.ctx
        c = Ctx(self, None, site, m)
        self.ctx = c
        try:
            r = self.exec_block(m.tree.body, st)
            if r is None:
                raise AnalysisBroken("module %s never finishes importing: %s" % (
                    name, "; ".join(repr(e) for e, _ in c.raises[:3])))
            if r is not st:
                st.set(r)
        finally:
            self.import_events += c.events.values()
            self.ctx = save

    def load_all(self):
        self.import_events = []
        self.initst = State()
        for name in sorted(self.prog.modules):
            self.load_module(name)
        self.flag_shared(self.initst)
        self.base.update(self.initst.heap)
        self.initcons = self.initst.cons
        self.memo.clear()
        self.nkeys.clear()
        self.initst = None

    def flag_shared(self, st):
        """name the storage that lives as long as the process"""
        for s, o in list(st.heap.items()):
            if o.kind == "module":
                for k, v in o.fields.items():
                    if isinstance(k, str) and not k.startswith("__"):
                        for x in v:
                            if x.k == "ref" and st.heap[x.p].kind in ("list", "dict", "set", "inst", "opaque"):
                                self.mark_reach(st, [frozenset([x])], frozenset(["global:%s.%s" % (s[1], k)]),
                                                kinds=("list", "dict", "set", "inst", "opaque"))
            elif o.kind == "frame":
                for k, v in o.fields.items():
                    for x in v:
                        if x.k == "ref" and st.heap[x.p].kind in ("list", "dict", "set", "inst", "opaque"):
                            self.mark_reach(st, [frozenset([x])], frozenset(["global:closure variable %s" % k]),
                                            kinds=("list", "dict", "set", "inst", "opaque"))
                st.heap[s] = st.heap[s].rep(flags=st.heap[s].flags | {"global:closure"})

    def module_attr(self, modname, attr, st=None):
        o = None
        s = ("module", modname)
        if st is not None:
            o = self.get(st, s)
        else:
            o = self.base.get(s)
        if o is None:
            return None
        return o.fields.get(attr)

    # ------------------------------------------------------------- names
    def lookup(self, st, name, node):
        c = self.ctx
        f = self.get(st, c.frame)
        if name in f.fields and name not in c.globals:
            v = f.fields[name]
            if any(a.k == "unbound" for a in v):
                v2 = frozenset(a for a in v if a.k != "unbound")
                if not v2:
                    self.synth(st, node, "UnboundLocalError", "variable %r used before assignment" % name)
                return v2
            return v
        if c.fn is not None and name in c.locals and name not in c.globals:
            self.synth(st, node, "UnboundLocalError", "variable %r used before assignment" % name)
        # closures
        s = f.cls[1] if (isinstance(f.cls, tuple) and f.cls[0] == "frame") else None
        while s is not None:
            fo = self.get(st, s)
            if fo is None:
                break
            if name in fo.fields:
                v = frozenset(a for a in fo.fields[name] if a.k != "unbound")
                if fo.kind == "module":
                    break
                if not v:
                    self.synth(st, node, "NameError", "free variable %r not bound" % name)
                return v
            s = fo.cls[1] if (isinstance(fo.cls, tuple) and fo.cls[0] == "frame") else None
        g = self.get(st, ("module", c.mod.name))
        if name in g.fields:
            v = g.fields[name]
            if c.fn is not None:
                self.global_read(st, node, c.mod.name, name, v)
            return frozenset(a for a in v if a.k != "unbound")
        b = self.models.builtin(name)
        if b is not None:
            return b
        if self.get(st, ("module", c.mod.name)).flags & {"starext"}:
            return TOP
        self.synth(st, node, "NameError", "name %r is not defined" % name)

    def global_read(self, st, node, mod, name, v):
        for a in v:
            if a.k == "ref":
                self.ev("gread", node, (mod, name))
                return
        if ("module", mod) in st.heap and self.base.get(("module", mod)) is not st.heap[("module", mod)]:
            self.ev("gread", node, (mod, name))
        elif (mod, name) in self.global_written:
            self.ev("gread", node, (mod, name))

    @property
    def global_written(self):
        gw = getattr(self, "_gw", None)
        if gw is None:
            gw = set()
            for m in self.prog.modules.values():
                for fn in ast.walk(m.tree):
                    if isinstance(fn, ast.Global):
                        gw.update((m.name, x) for x in fn.names)
            self._gw = gw
        return gw

    def bind(self, st, name, v, node):
        c = self.ctx
        if name in c.globals:
            s = ("module", c.mod.name)
            o = self.get(st, s)
            self.ev("mutate", node, ("global " + name, o.flags, "module", name))
            self.ev("aset", node, (name, o.flags, c.mod.name, self.plabels(v, st), self.describe(v)))
            f = dict(o.fields)
            f[name] = v
            st.heap[s] = o.rep(fields=f)
            return
        if name in c.nonlocals:
            f = self.get(st, c.frame)
            s = f.cls[1]
            while s is not None:
                fo = self.get(st, s)
                if fo is None:
                    break
                if name in fo.fields:
                    d = dict(fo.fields)
                    d[name] = v if not fo.summary else av_join(d[name], v)
                    st.heap[s] = fo.rep(fields=d)
                    if fo.flags:
                        self.ev("mutate", node, ("nonlocal " + name, fo.flags, "frame", name))
                        self.ev("aset", node, (name, fo.flags, "closure", self.plabels(v, st), self.describe(v)))
                    return
                s = fo.cls[1] if isinstance(fo.cls, tuple) else None
            return
        o = self.get(st, c.frame)
        f = dict(o.fields)
        f[name] = v
        st.heap[c.frame] = o.rep(fields=f)

    # ------------------------------------------------------------- statements
    def exec_block(self, body, st):
        """returns the state at normal completion or None"""
        for s in body:
            if st is None:
                return None
            try:
                st = self.exec_stmt(s, st)
            except Dead:
                return None
        return st

    def exec_stmt(self, n, st):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            self.note("stmt", type(n).__name__, n)
            return st
        return m(n, st)

    def s_Pass(self, n, st):
        return st

    def s_Expr(self, n, st):
        self.eval(n.value, st)
        return st

    def s_Import(self, n, st):
        for a in n.names:
            if a.name in self.prog.modules:
                if self.initst is not None and st is self.initst:
                    self.load_module(a.name)
                if a.asname:
                    self.bind(st, a.asname, mk("mod", a.name), n)
                else:
                    self.bind(st, a.name.split(".")[0], mk("mod", a.name.split(".")[0]), n)
            else:
                if a.asname:
                    self.bind(st, a.asname, mk("ext", a.name), n)
                else:
                    self.bind(st, a.name.split(".")[0], mk("ext", a.name.split(".")[0]), n)
        return st

    def s_ImportFrom(self, n, st):
        base = n.module or ""
        if n.level:
            parts = self.ctx.mod.name.split(".")
            if not self.ctx.mod.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (n.level - 1)]
            base = ".".join(parts + ([n.module] if n.module else []))
        if base in self.prog.modules:
            if self.initst is not None:
                self.load_module(base)
            for a in n.names:
                if a.name == "*":
                    o = self.get(st, ("module", base))
                    for k, v in list(o.fields.items()):
                        if not k.startswith("_"):
                            self.bind(st, k, v, n)
                    if "starext" in o.flags:
                        s = ("module", self.ctx.mod.name)
                        g = self.get(st, s)
                        st.heap[s] = g.rep(flags=g.flags | {"starext"})
                    continue
                o = self.get(st, ("module", base))
                if o is not None and a.name in o.fields:
                    self.bind(st, a.asname or a.name, o.fields[a.name], n)
                elif base + "." + a.name in self.prog.modules:
                    if self.initst is not None:
                        self.load_module(base + "." + a.name)
                    self.bind(st, a.asname or a.name, mk("mod", base + "." + a.name), n)
                else:
                    self.synth(st, n, "ImportError", "cannot import %s from %s" % (a.name, base))
            return st
        for a in n.names:
            if a.name == "*":
                s = ("module", self.ctx.mod.name)
                g = self.get(st, s)
                st.heap[s] = g.rep(flags=g.flags | {"starext"})
                for nm in self.models.star_names(base):
                    self.bind(st, nm, mk("ext", base + "." + nm), n)
                continue
            self.bind(st, a.asname or a.name, mk("ext", base + "." + a.name), n)
        return st

    def make_fn(self, n, st, qual=None, cls=None):
        c = self.ctx
        defaults = tuple(self.eval(d, st) for d in n.args.defaults)
        kwd = tuple((a.arg, self.eval(d, st)) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None)
        # a mutable default is shared state of the function
        for v in defaults + tuple(x for _, x in kwd):
            for a in v:
                if a.k == "ref":
                    o = self.get(st, a.p)
                    if o is not None and o.kind in ("list", "dict", "set"):
                        st.heap[a.p] = o.rep(flags=o.flags | {"global:default of " + n._qual})
        closure = None
        fo = self.get(st, c.frame)
        if fo.kind == "frame":
            closure = c.frame
        elif fo.kind == "classns":
            closure = fo.cls[1] if isinstance(fo.cls, tuple) else None
        return Fn(n, c.mod, closure, defaults, kwd, n._qual, cls)

    def s_FunctionDef(self, n, st):
        decs = [self.eval(d, st) for d in n.decorator_list]
        fn = self.make_fn(n, st)
        v = mk("fn", fn)
        for d, dn in zip(reversed(decs), reversed(n.decorator_list)):
            v = self.call(d, [v], {}, dn, st)
        self.bind(st, n.name, v, n)
        return st

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, st):
        bases = []
        for b in n.bases:
            v = self.eval(b, st)
            for a in v:
                if a.k == "cls":
                    bases.append(a.p)
                elif a.k == "ext":
                    bases.append(a.p)
                else:
                    bases.append("object")
        for d in n.decorator_list:
            self.eval(d, st)
        site = ("class", self.ctx.mod.name, n._qual)
        parent = self.get(st, self.ctx.frame)
        cl = ("frame", self.ctx.frame if parent.kind == "frame" else None)
        st.heap[site] = Obj("classns", cl, {"__name__": AStr(n.name)}, flags=frozenset(["global:class " + n.name]))
        cobj = self.classes.get(n._nid)
        if cobj is None:
            cobj = ClassObj(n.name, self.ctx.mod, bases, n, site)
            self.classes[n._nid] = cobj
        save = self.ctx
        c = Ctx(self, None, site, save.mod)
        c.qual = n._qual
        c.events = save.events
        c.raises = save.raises
        self.ctx = c
        try:
            r = self.exec_block(n.body, st)
        finally:
            self.ctx = save
        if r is None:
            return None
        ns = self.get(r, site)
        # objects created in the class body are shared
        self.mark_reach(r, [v for v in ns.fields.values()], frozenset(["global:class " + n.name]))
        self.bind(r, n.name, mk("cls", cobj), n)
        return r

    def mark_reach(self, st, avs, flags, kinds=("list", "dict", "set", "inst", "tuple", "opaque")):
        seen = set()
        work = list(avs)
        while work:
            v = work.pop()
            for a in v:
                if a.k == "ref" and a.p not in seen:
                    seen.add(a.p)
                    o = self.get(st, a.p)
                    if o is None:
                        continue
                    if o.kind in kinds:
                        if not flags <= o.flags:
                            st.heap[a.p] = o.rep(flags=o.flags | flags)
                    work.extend(o.fields.values())
                    if o.items is not None:
                        work.extend(o.items)
                    work.append(o.elem)
                    work.append(o.keyl)
        return seen

    def s_Return(self, n, st):
        v = self.eval(n.value, st) if n.value is not None else NONE
        if v == NONE and (n.value is None or isinstance(n.value, ast.Constant)):
            v = self.nil(n)
        self.ctx.returns.append((v, st, n))
        return None

    def nil(self, n):
        """None that a function returns on purpose or by running off its end"""
        f = self.ctx.fn
        return mk("none", None, frozenset(["nil:" + f.qual])) if f is not None else NONE

    def s_Global(self, n, st):
        return st

    s_Nonlocal = s_Global

    def s_Assign(self, n, st):
        v = self.eval(n.value, st)
        for t in n.targets:
            self.assign(t, v, st)
        return st

    def s_AnnAssign(self, n, st):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, st), st)
        return st

    def s_AugAssign(self, n, st):
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.lookup(st, t.id, t)
            rhs = self.eval(n.value, st)
            self.bind(st, t.id, self.inplace(n.op, cur, rhs, n, st), n)
        elif isinstance(t, ast.Attribute):
            ob = self.eval(t.value, st)
            cur = self.getattr(ob, t.attr, t, st)
            rhs = self.eval(n.value, st)
            self.setattr(ob, t.attr, self.inplace(n.op, cur, rhs, n, st), n, st)
        elif isinstance(t, ast.Subscript):
            ob = self.eval(t.value, st)
            ix = self.eval_index(t.slice, st)
            cur = self.models.getitem(ob, ix, t, st)
            rhs = self.eval(n.value, st)
            self.models.setitem(ob, ix, self.inplace(n.op, cur, rhs, n, st), n, st)
        return st

    def inplace(self, op, cur, rhs, node, st):
        """+= on lists mutates in place"""
        out = EMPTY
        other = []
        for a in cur:
            if a.k == "ref":
                o = self.get(st, a.p)
                if o.kind == "list" and isinstance(op, ast.Add):
                    self.models.list_extend(a, rhs, node, st, "+=")
                    out = av_join(out, frozenset([a]))
                    continue
                if o.kind == "list" and isinstance(op, ast.Mult):
                    self.mutate(st, a, node, "*=")
                    st.heap[a.p] = o.rep(items=None, elem=o.elems(), len=None, vn=None)
                    out = av_join(out, frozenset([a]))
                    continue
                if o.kind in ("set", "dict") and isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
                    self.mutate(st, a, node, type(op).__name__ + "=")
                    e = av_join(o.elems(), self.models.iter_elem(rhs, node, st))
                    st.heap[a.p] = self.get(st, a.p).rep(items=None, elem=e, len=None, vn=None)
                    out = av_join(out, frozenset([a]))
                    continue
                if o.kind == "inst":
                    nm = "__i" + OPNAMES[type(op).__name__] + "__"
                    f = self.class_lookup(o.cls, nm, st)
                    if f is not None:
                        out = av_join(out, self.call(self.bind_method(f, a, o.cls), [rhs], {}, node, st))
                        continue
            other.append(a)
        if other:
            out = av_join(out, self.binop(op, frozenset(other), rhs, node, st))
        return out

    def plabels(self, v, st):
        """inputs the value v (or its being stored at all) depends on"""
        return frozenset(x for x in self.models.shape_labels(v, st) | st.pc if isinstance(x, str) and x.startswith("P:"))

    def mutate(self, st, atom, node, op, attr=""):
        o = self.get(st, atom.p)
        if o is not None and o.flags:
            self.ev("mutate", node, (op, o.flags, o.kind if o.kind != "inst" else cname(o.cls), attr))

    def assign(self, t, v, st):
        if st.pc:
            nd = frozenset(x for x in st.pc if strong(x))
            if nd:
                v = av_add_labels(v, nd)
        if isinstance(t, ast.Name):
            self.bind(st, t.id, v, t)
        elif isinstance(t, ast.Attribute):
            ob = self.eval(t.value, st)
            self.setattr(ob, t.attr, v, t, st)
        elif isinstance(t, ast.Subscript):
            ob = self.eval(t.value, st)
            ix = self.eval_index(t.slice, st)
            self.models.setitem(ob, ix, v, t, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
            parts = self.models.unpack(v, len(t.elts), star, t, st)
            for e, p in zip(t.elts, parts):
                if isinstance(e, ast.Starred):
                    if isinstance(p, list):
                        p = self.new_list(st, e, p, tag="star")
                    else:
                        p = self.new_list(st, e, None, p, None, "star")
                    self.assign(e.value, p, st)
                else:
                    self.assign(e, p, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def s_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Name):
                o = self.get(st, self.ctx.frame)
                f = dict(o.fields)
                f.pop(t.id, None)
                st.heap[self.ctx.frame] = o.rep(fields=f)
            elif isinstance(t, ast.Subscript):
                ob = self.eval(t.value, st)
                self.eval_index(t.slice, st)
                for a in ob:
                    if a.k == "ref":
                        o = self.get(st, a.p)
                        self.mutate(st, a, n, "del item")
                        st.heap[a.p] = o.rep(items=None, elem=o.elems(), len=None, vn=None)
            elif isinstance(t, ast.Attribute):
                ob = self.eval(t.value, st)
                for a in ob:
                    if a.k == "ref":
                        self.mutate(st, a, n, "del attribute", t.attr)
        return st

    def s_If(self, n, st):
        pc0 = st.pc
        t, f = self.cond(n.test, st)
        if t is not None:
            t = self.exec_block(n.body, t)
        if f is not None:
            f = self.exec_block(n.orelse, f) if n.orelse else f
        r = state_join(t, f)
        if t is not None and f is not None:
            nd = frozenset(x for x in r.pc if strong(x) and x not in pc0)
            if nd:
                self.differ(r, t, f, nd)
            self.pc_back(r, pc0)
        return r

    def differ(self, r, t, f, nd):
        """what the two ways leave different depends on the condition"""
        lab = lambda v: av_add_labels(v, nd)
        for k, o in list(r.heap.items()):
            if o is None or o.kind not in ("list", "dict", "set", "inst") or t.heap.get(k) is f.heap.get(k):
                continue
            if t.heap.get(k) is None or f.heap.get(k) is None:
                continue
            r.heap[k] = o.rep(elem=lab(o.elem), items=None if o.items is None else type(o.items)(lab(x) for x in o.items),
                              fields={a: lab(v) for a, v in o.fields.items()} if o.fields else o.fields)

    def pc_back(self, st, pc0):
        """both ways rejoin: what follows no longer depends on a condition that varies between runs"""
        if any(strong(x) and x not in pc0 for x in st.pc):
            st.pc = frozenset(x for x in st.pc if not strong(x) or x in pc0)

    def nds(self, why, node):
        loc = self.ctx.loc(node) if node is not None and getattr(self, "ctx", None) is not None else None
        return frozenset(["nondet:%s@%s" % (why, "%s:%s (%s)" % loc if loc else "?")])

    def s_Assert(self, n, st):
        t, f = self.cond(n.test, st)
        if f is not None:
            self.ctx.raises.append((Exc("AssertionError", "user", self.ctx.loc(n)), f))
        return t

    def s_Raise(self, n, st):
        if n.exc is None:
            e = self.ctx.handling[-1] if self.ctx.handling else Exc("Exception", "user", self.ctx.loc(n))
            self.ctx.raises.append((e, st))
            return None
        v = self.eval(n.exc, st)
        name = "Exception"
        for a in v:
            if a.k == "ext":
                name = a.p.split(".")[-1]
            elif a.k == "extobj":
                name = a.p[0].split(".")[-1]
            elif a.k == "cls":
                name = a.p.name
            elif a.k == "ref":
                o = self.get(st, a.p)
                name = cname(o.cls)
        self.ctx.raises.append((Exc(name, "user", self.ctx.loc(n), "", v), st))
        return None

    def s_Break(self, n, st):
        self.ctx.breaks.append(st)
        return None

    def s_Continue(self, n, st):
        self.ctx.conts.append(st)
        return None

    # ---- loops
    def s_While(self, n, st):
        return self.loop(n, st, None)

    def s_For(self, n, st):
        it = self.eval(n.iter, st)
        return self.for_loop(n, it, st)

    s_AsyncFor = s_For

    def for_loop(self, n, it, st):
        items = self.models.known_items(it, st)
        c = self.ctx
        if items is not None and len(items) <= MAX_UNROLL:
            sb, sc, rd = c.breaks, c.conts, c.rounds
            c.breaks = []
            try:
                for ri, x in enumerate(items):
                    if st is None:
                        break
                    c.conts = []
                    c.rounds = rd + (ri,)
                    try:
                        self.assign(n.target, x, st)
                        st = self.exec_block(n.body, st)
                    except Dead:
                        st = None
                    for s in c.conts:
                        st = state_join(st, s)
                brk = c.breaks
            finally:
                c.breaks, c.conts, c.rounds = sb, sc, rd
            if st is not None and n.orelse:
                st = self.exec_block(n.orelse, st)
            for s in brk:
                st = state_join(st, s)
            return st
        return self.loop(n, st, it)

    def loop(self, n, st, it):
        c = self.ctx
        head = st
        exits = []
        created0 = set(c.created)
        for itn in range(MAX_ITER + 8):
            sb, sc = c.breaks, c.conts
            c.breaks, c.conts = [], []
            nr = len(c.raises)
            nret = len(c.returns)
            try:
                cur = head.copy()
                exitst = None
                body = None
                if it is None:
                    try:
                        body, exitst = self.cond(n.test, cur)
                    except Dead:
                        body, exitst = None, None
                else:
                    try:
                        body, exitst, elem, ordl = self.models.iter_step(it, n, cur)
                    except Dead:
                        body, exitst = None, None
                    if body is not None:
                        try:
                            c.loopord.append(ordl)
                            self.assign(n.target, elem, body)
                        except Dead:
                            body = None
                            c.loopord.pop()
                if body is not None:
                    try:
                        body = self.exec_block(n.body, body)
                    finally:
                        if it is not None:
                            c.loopord.pop()
                back = body
                for s in c.conts:
                    back = state_join(back, s)
                brk = c.breaks
            finally:
                c.breaks, c.conts = sb, sc
            if back is not None:
                newc = c.created - created0
                if newc:
                    back = back.copy()
                    self.forget_many(back, newc)
                self.forget_u(back, n)
                new = state_join(head, back)
                if itn >= MAX_ITER:
                    new = self.widen(new)
                if itn > MAX_ITER + 4:
                    self.note("loop", "no fixpoint", n)
            else:
                new = head
            if new == head or back is None:
                break
            # discard the outcomes of this non-final iteration
            del c.raises[nr:]
            del c.returns[nret:]
            head = new
        out = exitst
        if it is not None and out is not None and back is not None and not brk:
            self.counted(n, it, st, head, out, created0)
        if out is not None and n.orelse:
            out = self.exec_block(n.orelse, out)
        for s in brk:
            out = state_join(out, s)
        return out

    def counted(self, n, it, st, head, out, created0):
        """a list that every iteration extends by the same number of elements has a known length after the loop"""
        N = self.models.av_len(it, st)
        if N is None or not st.cons.entails_ge(N):
            return
        its = {a.p for a in it if a.k == "ref"}
        cand = {}
        for s, o in head.heap.items():
            if o.kind == "list" and o.items is None and o.len is None and not o.summary and s not in its and s not in self.base:
                b = st.heap.get(s)
                if b is not None and not b.summary and (b.items is not None or b.len is not None):
                    cand[s] = Lin(len(b.items)) if b.items is not None else b.len
        if not cand:
            return
        c = self.ctx
        cur = head.copy()
        lam = {}
        for i, s in enumerate(sorted(cand, key=repr)):
            lam[s] = Lin.sym(("lam", n._nid, i))
            cc = cur.cons.add_ge(lam[s])
            if cc is None:
                return
            cur.cons = cc
            cur.heap[s] = cur.heap[s].rep(len=lam[s], vn=None)
        sb, sc = c.breaks, c.conts
        nr, nret = len(c.raises), len(c.returns)
        c.breaks, c.conts = [], []
        back = None
        try:
            body, _, elem, ordl = self.models.iter_step(it, n, cur)
            if body is not None:
                c.loopord.append(ordl)
                try:
                    self.assign(n.target, elem, body)
                    back = self.exec_block(n.body, body)
                finally:
                    c.loopord.pop()
            for s in c.conts:
                back = state_join(back, s)
            if c.breaks:
                back = None
        except Dead:
            back = None
        finally:
            c.breaks, c.conts = sb, sc
            del c.raises[nr:]
            del c.returns[nret:]
        if back is None:
            return
        for s, L0 in cand.items():
            o = back.heap.get(s)
            if o is None or o.kind != "list" or o.items is not None or o.len is None or o.summary:
                continue
            d = o.len - lam[s]
            if d.is_const() and d.c >= 0 and s in out.heap:
                out.heap[s] = out.heap[s].rep(len=L0 + N.scale(d.c))

    def widen(self, st):
        st = st.copy()
        for s, o in list(st.heap.items()):
            if s in self.base:
                continue
            ren = Renamer(lambda s: s, lambda s: None)
            st.heap[s] = ren.obj(o).rep(vn=None) if o.kind != "frame" else ren.obj(o)
        st.cons = Cons()
        return st

    def forget_u(self, st, n):
        """values named by a creation point inside the loop do not stay the same
        over iterations"""
        inside = getattr(n, "_inside", None)
        if inside is None:
            inside = frozenset(x._nid for x in ast.walk(n))
            n._inside = inside

        def bad(x):
            if isinstance(x, tuple):
                if len(x) >= 2 and x[0] == "u" and x[1] in inside:
                    return True
                if len(x) >= 2 and x[0] == "c" and x[1] in inside:
                    return True
                return any(bad(y) for y in x)
            if isinstance(x, frozenset):
                return any(bad(y) for y in x)
            return False

        cache = {}

        def fix_atom(a):
            if a.k == "sym" and (a.p.val is not None or a.p.part is not None):
                if a not in cache:
                    p = a.p
                    if p.val is not None and bad(p.val):
                        p = p.rep(val=None)
                    if p.part is not None and bad(p.part):
                        p = p.rep(part=None)
                    cache[a] = a if p is a.p else Atom("sym", p, a.l)
                return cache[a]
            if a.k == "str" and isinstance(a.p, StrD) and bad((a.p.p,)):
                return Atom("str", StrD(a.p.kind, None) if a.p.kind == "schur" else None, a.l)
            return a

        def fix(v):
            if any(a.k in ("sym", "str") for a in v):
                r = frozenset(fix_atom(a) for a in v)
                return r if r != v else v
            return v
        for s, o in list(st.heap.items()):
            if s in self.base:
                continue
            ch = {}
            f = {k: fix(v) for k, v in o.fields.items()}
            if any(f[k] is not o.fields[k] for k in f):
                ch["fields"] = f
            if o.items is not None:
                it = tuple(fix(v) for v in o.items)
                if any(x is not y for x, y in zip(it, o.items)):
                    ch["items"] = it
            e = fix(o.elem)
            if e is not o.elem:
                ch["elem"] = e
            if o.vn is not None and bad((o.vn,)):
                ch["vn"] = None
            if ch:
                st.heap[s] = o.rep(**ch)

    # ---- try / with
    def s_Try(self, n, st):
        c = self.ctx
        save_r = c.raises
        c.raises = []
        if n.finalbody:
            save_ret, save_b, save_c = c.returns, c.breaks, c.conts
            c.returns = []
            if c.breaks is not None:
                c.breaks, c.conts = [], []
        pre = st.copy()
        ok = self.exec_block(n.body, st)
        caught = c.raises
        c.raises = []
        if ok is not None and n.orelse:
            ok = self.exec_block(n.orelse, ok)
        outs = [ok]
        rest = list(c.raises)
        c.raises = []
        # a statement in the body may always raise something not modelled (external calls)
        if n.handlers and self.block_may_raise(n.body):
            caught = caught + [(Exc("?", "synth", c.loc(n), "unmodelled", TOP, True), pre)]
        pend = caught
        for h in n.handlers:
            names = self.exc_names(h.type, pre)
            mine = [x for x in pend if self.exc_match(x[0].name, names) is not False]
            pend = [x for x in pend if self.exc_match(x[0].name, names) is not True]
            if not mine:
                continue
            hs = join_all([s for _, s in mine]).copy()
            if len(mine) > 0:
                hs.exact = hs.exact and all(not e.partial for e, _ in mine)
            if h.name:
                v = EMPTY
                for e, _ in mine:
                    v = av_join(v, e.av)
                self.bind(hs, h.name, v, h)
            c.handling.append(mine[0][0])
            outs.append(self.exec_block(h.body, hs))
            c.handling.pop()
        rest += [x for x in pend if x[0].name != "?"] + c.raises
        c.raises = save_r
        if n.finalbody:
            rets, brks, cnts = c.returns, c.breaks, c.conts
            c.returns, c.breaks, c.conts = save_ret, save_b, save_c
            out = None
            j = join_all(outs)
            if j is not None:
                out = self.exec_block(n.finalbody, j)
            for e, s in rest:
                s2 = self.exec_block(n.finalbody, s.copy())
                if s2 is not None:
                    c.raises.append((e, s2))
            for v, s, rn in rets:
                s2 = self.exec_block(n.finalbody, s.copy())
                if s2 is not None:
                    c.returns.append((v, s2, rn))
            if brks:
                for s in brks:
                    s2 = self.exec_block(n.finalbody, s.copy())
                    if s2 is not None:
                        c.breaks.append(s2)
            if cnts:
                for s in cnts:
                    s2 = self.exec_block(n.finalbody, s.copy())
                    if s2 is not None:
                        c.conts.append(s2)
            return out
        c.raises.extend(rest)
        return join_all(outs)

    s_TryStar = s_Try

    def block_may_raise(self, body):
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, (ast.Call, ast.Subscript, ast.BinOp, ast.Attribute, ast.Raise, ast.Import, ast.ImportFrom)):
                    return True
        return False

    def exc_names(self, t, st):
        if t is None:
            return None
        v = self.eval(t, st.copy())
        out = set()

        def add(v):
            for a in v:
                if a.k == "ext":
                    out.add(a.p.split(".")[-1])
                elif a.k == "cls":
                    out.add(a.p.name)
                elif a.k == "ref":
                    o = self.get(st, a.p)
                    if o is not None:
                        add(o.elems())
                    else:
                        out.add("?")
                else:
                    out.add("?")
        try:
            if isinstance(t, ast.Tuple):
                for e in t.elts:
                    add(self.eval(e, st.copy()))
            else:
                add(v)
        except Dead:
            out.add("?")
        return out

    def exc_match(self, name, names):
        """True / False / None(maybe)"""
        if names is None or "Exception" in names or "BaseException" in names:
            return True
        if name == "?" or "?" in names:
            return None
        cur = name
        while cur:
            if cur in names:
                return True
            cur = EXC_PARENT.get(cur)
        return False

    def s_With(self, n, st):
        for it in n.items:
            v = self.eval(it.context_expr, st)
            self.ev("with", n, (tuple(sorted(str(a.p[0]) if a.k == "extobj" else a.k for a in v)),))
            r = EMPTY
            for a in v:
                if a.k == "ref" and self.get(st, a.p).kind == "inst":
                    r = av_join(r, self.call(self.getattr(frozenset([a]), "__enter__", n, st), [], {}, n, st))
                else:
                    r = av_join(r, frozenset([a]))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r, st)
        return self.exec_block(n.body, st)

    s_AsyncWith = s_With

    def s_Match(self, n, st):
        self.note("stmt", "Match", n)
        self.eval(n.subject, st)
        outs = [st.copy()]
        for cse in n.cases:
            s = st.copy()
            s.exact = False
            for x in ast.walk(cse.pattern):
                for nm in (getattr(x, "name", None), getattr(x, "rest", None)):
                    if isinstance(nm, str):
                        self.bind(s, nm, TOP, n)
            outs.append(self.exec_block(cse.body, s))
        return join_all(outs)

    # ------------------------------------------------------------- expressions
    def eval(self, n, st):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            self.note("expr", type(n).__name__, n)
            return TOP
        v = m(n, st)
        if not v:
            # no value: the expression cannot complete
            raise Dead()
        return v

    def e_Constant(self, n, st):
        v = n.value
        if v is None:
            return NONE
        if isinstance(v, bool):
            return ABool(v)
        if isinstance(v, int):
            return AInt(v)
        if isinstance(v, float):
            return mk("float")
        if isinstance(v, str):
            return AStr(v)
        if v is Ellipsis:
            return mk("extobj", ("ellipsis", None))
        return mk("extobj", (type(v).__name__, None))

    def e_Name(self, n, st):
        return self.lookup(st, n.id, n)

    def e_NamedExpr(self, n, st):
        v = self.eval(n.value, st)
        self.assign(n.target, v, st)
        return v

    def e_Attribute(self, n, st):
        return self.getattr(self.eval(n.value, st), n.attr, n, st)

    def e_List(self, n, st, kind="list"):
        items = []
        exactly = True
        elem = EMPTY
        single = None
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, st)
                ki = self.models.known_items(v, st)
                if ki is None:
                    exactly = False
                    elem = av_join(elem, self.models.iter_elem(v, e, st))
                    if len(n.elts) == 1:
                        single = v
                else:
                    items.extend(ki)
                    for x in ki:
                        elem = av_join(elem, x)
            else:
                v = self.eval(e, st)
                items.append(v)
                elem = av_join(elem, v)
        if exactly:
            return self.new_list(st, n, items, kind=kind, vn=self.models.vn_of_items(items, kind, st))
        if single is not None and kind in ("list", "tuple"):
            # [*x]: a copy of x
            return self.models.seq_copy(single, kind, n, st, "")
        return self.new_list(st, n, None, elem, None, kind=kind)

    def e_Tuple(self, n, st):
        return self.e_List(n, st, "tuple")

    def e_Set(self, n, st):
        r = self.e_List(n, st, "set")
        for a in r:
            o = self.get(st, a.p)
            ki = self.models.distinct(list(o.items)) if o.items is not None and not o.summary else None
            if ki is not None:
                st.heap[a.p] = o.rep(items=tuple(ki), elem=EMPTY, len=Lin(len(ki)), vn=None)
            else:
                st.heap[a.p] = o.rep(items=None, elem=o.elems(), len=None, vn=None)
        return r

    def e_Dict(self, n, st):
        fields = {}
        elem, keyl = EMPTY, EMPTY
        known = True
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.eval(v, st)
                known = False
                for a in d:
                    if a.k == "ref":
                        o = self.get(st, a.p)
                        elem = av_join(elem, o.elem)
                        keyl = av_join(keyl, o.keyl)
                        for x in o.fields.values():
                            elem = av_join(elem, x)
                    else:
                        elem = av_join(elem, TOP)
                        keyl = av_join(keyl, TOP)
                continue
            kv = self.eval(k, st)
            vv = self.eval(v, st)
            ok, c = const_of(kv)
            if ok:
                fields[("k", c)] = vv
            else:
                known = False
            elem = av_join(elem, vv)
            keyl = av_join(keyl, kv)
        if not known:
            fields = {}
        else:
            elem = EMPTY
        return self.alloc(st, n, Obj("dict", None, fields, None, elem, Lin(len(fields)) if known else None,
                                     keyl=keyl))

    def e_Lambda(self, n, st):
        return mk("fn", self.make_fn(n, st))

    def e_IfExp(self, n, st):
        t, f = self.cond(n.test, st)
        v = EMPTY
        out = None
        if t is not None:
            try:
                v = self.eval(n.body, t)
                out = t
            except Dead:
                pass
        if f is not None:
            try:
                w = self.eval(n.orelse, f)
                v = av_join(v, w)
                out = state_join(out, f)
            except Dead:
                pass
        if out is None:
            raise Dead()
        nd = frozenset(x for x in out.pc if strong(x) and x not in st.pc)
        if nd and t is not None and f is not None:
            v = av_add_labels(v, nd)
            self.pc_back(out, st.pc)
        st.set(out)
        return v

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        res = EMPTY
        outs = None
        cur = st.copy()
        for i, e in enumerate(n.values):
            try:
                if i == len(n.values) - 1:
                    v = self.eval(e, cur)
                    res = av_join(res, v)
                    outs = state_join(outs, cur)
                    break
                v, t, f, vt, vf = self.eval_truth(e, cur)
            except Dead:
                break
            if isand:
                if f is not None:
                    res = av_join(res, vf)
                    outs = state_join(outs, f)
                cur = t
            else:
                if t is not None:
                    res = av_join(res, vt)
                    outs = state_join(outs, t)
                cur = f
            if cur is None:
                break
        if outs is None:
            raise Dead()
        st.set(outs)
        return res

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            t, f = self.cond(n.operand, st.copy())
            if t is None and f is None:
                raise Dead()
            o = state_join(t, f)
            st.set(o)
            if t is None:
                return ABool(True)
            if f is None:
                return ABool(False)
            return ABool(None)
        v = self.eval(n.operand, st)
        if isinstance(n.op, ast.USub):
            return self.models.neg(v, n, st)
        if isinstance(n.op, ast.UAdd):
            return v
        return self.models.invert(v, n, st)

    def e_BinOp(self, n, st):
        a = self.eval(n.left, st)
        b = self.eval(n.right, st)
        return self.binop(n.op, a, b, n, st)

    def e_Compare(self, n, st):
        if len(n.ops) == 1:
            a = self.eval(n.left, st)
            b = self.eval(n.comparators[0], st)
            a, b = unhash(n.ops[0], a, b)
            return self.models.compare(n.ops[0], a, b, n, st)
        t, f = self.cond(n, st.copy())
        o = state_join(t, f)
        if o is None:
            raise Dead()
        st.set(o)
        return ABool(True) if f is None else ABool(False) if t is None else ABool(None)

    def e_Call(self, n, st):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            fo = self.get(st, self.ctx.frame)
            names = fn_args(self.ctx.fn.node) if self.ctx.fn else []
            if names and self.ctx.fn.cls is not None:
                return frozenset(Atom("super", (a, self.ctx.fn.cls)) for a in fo.fields.get(names[0], EMPTY))
            if names:
                c = self.enclosing_class(self.ctx.fn)
                if c is not None:
                    return frozenset(Atom("super", (a, c)) for a in fo.fields.get(names[0], EMPTY))
            return TOP
        f = self.eval(n.func, st)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                ki = self.models.known_items(v, st)
                if ki is None:
                    args.append(("*", v))
                else:
                    args.extend(ki)
            else:
                args.append(self.eval(a, st))
        for k in n.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                for a in v:
                    if a.k == "ref":
                        o = self.get(st, a.p)
                        if o.kind == "dict" and not o.elem:
                            for kk, vv in o.fields.items():
                                if isinstance(kk, tuple):
                                    kwargs[kk[1]] = vv
                        else:
                            kwargs["**"] = v
                    else:
                        kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs, n, st)

    def enclosing_class(self, fn):
        q = fn.node._qual.rsplit(".", 1)[0] if "." in fn.node._qual else None
        for c in self.classes.values():
            if c.mod is fn.mod and c.node._qual == q:
                return c
        return None

    def e_Subscript(self, n, st):
        ob = self.eval(n.value, st)
        ix = self.eval_index(n.slice, st)
        r = self.models.getitem(ob, ix, n, st)
        if self.lossy and self.part_only(ob, ix, st):
            r = self.lose(r, st)
        return r

    def part_only(self, ob, ix, st):
        """a fixed element or section of something whose size is not known"""
        if isinstance(ix, tuple):
            if all(x is None for x in ix[1:3]) or not all(x is None or const_of(x)[0] for x in ix[1:3]):
                return False
            if ix[2] is None and const_of(ix[1]) in ((True, 0), (True, None)) or ix[1] is None and const_of(ix[2]) == (True, None):
                return False
        elif not const_of(ix)[0] or not all(x.k in ("int", "bool") for x in ix):
            return False
        for a in ob:
            o = self.get(st, a.p) if a.k == "ref" else None
            if a.k == "ref" and (o is None or o.kind not in ("list", "tuple") or o.items is not None):
                return False
            if a.k not in ("ref", "str"):
                return False
        return True

    def lose(self, v, st):
        """v keeps only part of what the inputs it rests on determine"""
        def add(x):
            l = frozenset("lossy:" + y[2:] for y in x.l if isinstance(y, str) and y.startswith("P:"))
            return x.with_l(x.l | l) if l else x
        for a in v:
            o = self.get(st, a.p) if a.k == "ref" else None
            if o is not None and o.kind in ("list", "tuple", "set") and a.p not in self.base:
                st.heap[a.p] = o.rep(elem=frozenset(map(add, o.elem)),
                                     items=None if o.items is None else tuple(frozenset(map(add, x)) for x in o.items))
        return frozenset(map(add, v))

    def eval_index(self, s, st):
        if isinstance(s, ast.Slice):
            lo = self.eval(s.lower, st) if s.lower is not None else None
            hi = self.eval(s.upper, st) if s.upper is not None else None
            step = self.eval(s.step, st) if s.step is not None else None
            return ("slice", lo, hi, step)
        return self.eval(s, st)

    def e_JoinedStr(self, n, st):
        parts = []
        labs = EMPTY
        first_list = None
        for i, v in enumerate(n.values):
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, st)
                labs |= av_labels(x)
                if v.format_spec is not None:
                    for y in v.format_spec.values:
                        if isinstance(y, ast.FormattedValue):
                            self.eval(y.value, st)
                d = self.models.str_of(x, v, st, "repr" if v.conversion == 114 else "str")
                labs |= av_labels(d)
                parts.append(d)
        return self.models.build_str(parts, labs)

    def e_FormattedValue(self, n, st):
        return self.models.str_of(self.eval(n.value, st), n, st)

    def e_Starred(self, n, st):
        return self.eval(n.value, st)

    def e_Yield(self, n, st):
        v = self.eval(n.value, st) if n.value else NONE
        if self.ctx.yields is None:
            self.ctx.yields = EMPTY
        self.ctx.yields = av_join(self.ctx.yields, v)
        return NONE

    def e_YieldFrom(self, n, st):
        v = self.eval(n.value, st)
        self.ctx.yields = av_join(self.ctx.yields or EMPTY, self.models.iter_elem(v, n, st))
        return NONE

    def e_Await(self, n, st):
        return self.eval(n.value, st)

    # ---- comprehensions
    def e_ListComp(self, n, st):
        return self.comp(n, st, "list")

    def e_SetComp(self, n, st):
        return self.comp(n, st, "set")

    def e_GeneratorExp(self, n, st):
        return self.comp(n, st, "iter")

    def e_DictComp(self, n, st):
        return self.comp(n, st, "dict")

    def comp(self, n, st, kind):
        frame0 = self.get(st, self.ctx.frame)
        inner = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    inner.add(x.id)
        saved = {k: frame0.fields[k] for k in inner if k in frame0.fields}
        added_locals = inner - self.ctx.locals
        self.ctx.locals |= inner
        acc = {"items": [], "elem": EMPTY, "key": EMPTY, "known": True, "ord": False, "len": Lin(0), "vn": None}

        def run(gi, st, known):
            if gi == len(n.generators):
                if kind == "dict":
                    k = self.eval(n.key, st)
                    v = self.eval(n.value, st)
                    acc["key"] = av_join(acc["key"], k)
                else:
                    v = self.eval(n.elt, st)
                    k = None
                acc["elem"] = av_join(acc["elem"], v)
                if known:
                    acc["items"].append((k, v))
                else:
                    acc["known"] = False
                    if acc.get("src") is None:
                        acc["len"] = None
                return st
            g = n.generators[gi]
            it = self.eval(g.iter, st)
            ki = self.models.known_items(it, st)
            if ki is not None and len(ki) <= MAX_UNROLL:
                rd = self.ctx.rounds
                for ri, x in enumerate(ki):
                    self.ctx.rounds = rd + (ri,)
                    self.assign(g.target, x, st)
                    dead = False
                    kn = known
                    for cnd in g.ifs:
                        t, f = self.cond(cnd, st)
                        if t is None:
                            st = f
                            dead = True
                            break
                        if f is not None:
                            kn = False
                            s2 = f
                            st = t
                            # may or may not be taken
                            st = self._maybe(run, gi, st, s2)
                            dead = True
                            break
                        st = t
                    if dead:
                        continue
                    st = run(gi + 1, st, kn)
                self.ctx.rounds = rd
                return st
            # unknown number of iterations
            acc["known"] = False
            if gi == 0 and len(n.generators) == 1:
                ln = self.models.av_len(it, st)
                acc["len"] = ln if not g.ifs else None
                acc["src"] = it
                acc["filtered"] = bool(g.ifs)
            else:
                acc["len"] = None
            if self.models.unordered(it, st):
                acc["ord"] = True
            cur = st
            created0 = set(self.ctx.created)
            for itn in range(MAX_ITER):
                e0 = (acc["elem"], acc["key"])
                b = cur.copy()
                nr = len(self.ctx.raises)
                try:
                    body, ex, elem, ordl = self.models.iter_step(it, n, b, gi)
                    if body is None:
                        break
                    self.ctx.loopord.append(ordl)
                    try:
                        self.assign(g.target, elem, body)
                        ok = body
                        for cnd in g.ifs:
                            ok, f = self.cond(cnd, ok)
                            if ok is None:
                                break
                        if ok is not None:
                            ok = run(gi + 1, ok, False)
                    finally:
                        self.ctx.loopord.pop()
                except Dead:
                    break
                if ok is None:
                    break
                newc = self.ctx.created - created0
                ok = ok.copy()
                if newc:
                    self.forget_many(ok, newc)
                    if acc["len"] is not None and acc["len"].syms() & newc and gi == 0:
                        pass
                    ren = Renamer(lambda s: s, lambda s: None if s in newc else Lin.sym(s))
                    acc["elem"] = ren.av(acc["elem"])
                    acc["key"] = ren.av(acc["key"])
                self.forget_u(ok, n)
                new = state_join(cur, ok)
                if new == cur and e0 == (acc["elem"], acc["key"]):
                    cur = new
                    break
                cur = new
                del self.ctx.raises[nr:]
            return cur

        self._maybe_acc = acc
        out = run(0, st.copy(), True)
        st.set(out)
        self.ctx.locals -= added_locals
        fo = self.get(st, self.ctx.frame)
        f = dict(fo.fields)
        for k in inner:
            f.pop(k, None)
        f.update(saved)
        st.heap[self.ctx.frame] = fo.rep(fields=f)
        if kind == "dict":
            fields = {}
            if acc["known"] and all(const_of(k)[0] for k, _ in acc["items"]):
                for k, v in acc["items"]:
                    fields[("k", const_of(k)[1])] = v
                return self.alloc(st, n, Obj("dict", None, fields, None, EMPTY, Lin(len(fields)), keyl=acc["key"]))
            return self.alloc(st, n, Obj("dict", None, {}, None, acc["elem"], None, keyl=acc["key"], ordt=acc["ord"]))
        if kind == "set":
            ki = self.models.distinct([v for _, v in acc["items"]]) if acc["known"] else None
            if ki is not None:
                return self.alloc(st, n, Obj("set", None, None, tuple(ki), EMPTY, Lin(len(ki))))
            return self.alloc(st, n, Obj("set", None, None, None, acc["elem"], None))
        if acc["known"]:
            items = [v for _, v in acc["items"]]
            return self.new_list(st, n, items, kind=kind, vn=self.models.vn_of_items(items, "list", st))
        vn = None
        if acc.get("src") is not None and not acc["filtered"]:
            vn = self.models.comp_vn(n, acc["src"], st)
        return self.new_list(st, n, None, acc["elem"], acc["len"], kind=kind, ordt=acc["ord"], vn=vn)

    def _maybe(self, run, gi, st, s2):
        r = run(gi + 1, st, False)
        return state_join(r, s2)

    # ------------------------------------------------------------- conditions
    def cond(self, n, st):
        """(state where n is true | None, state where n is false | None)"""
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            cur = st
            other = None
            for e in n.values:
                try:
                    t, f = self.cond(e, cur)
                except Dead:
                    cur = None
                    break
                if isand:
                    other = state_join(other, f)
                    cur = t
                else:
                    other = state_join(other, t)
                    cur = f
                if cur is None:
                    break
            if cur is None and other is None:
                raise Dead()
            return (cur, other) if isand else (other, cur)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            t, f = self.cond(n.operand, st)
            return f, t
        if isinstance(n, ast.Compare):
            if len(n.ops) == 1:
                return self.cond_compare(n.left, n.ops[0], n.comparators[0], n, st)
            cur = st
            other = None
            left = n.left
            for op, r in zip(n.ops, n.comparators):
                t, f = self.cond_compare(left, op, r, n, cur)
                other = state_join(other, f)
                cur = t
                left = r
                if cur is None:
                    break
            return cur, other
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "isinstance" and len(n.args) == 2 \
                and not n.keywords:
            fv = self.lookup(st, "isinstance", n)
            if any(a.k == "ext" and a.p == "builtins.isinstance" for a in fv):
                return self.cond_isinstance(n, st)
        v, t, f, vt, vf = self.eval_truth(n, st)
        return t, f

    def eval_truth(self, n, st):
        """evaluate and split on truthiness; narrows a plain name/attribute"""
        if isinstance(n, (ast.Compare, ast.BoolOp)) or (isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not)) or \
                (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "isinstance"):
            if isinstance(n, ast.BoolOp):
                v = self.eval(n, st)
                t, f, vt, vf = self.truth(v, st, n)
                return v, t, f, vt, vf
            t, f = self.cond(n, st)
            v = ABool(True) if f is None else ABool(False) if t is None else ABool(None)
            return v, t, f, ABool(True), ABool(False)
        if isinstance(n, ast.Attribute) and n.attr in self.models.KIND_ATTRS:
            return self.cond_symattr(n, st)
        v = self.eval(n, st)
        t, f, vt, vf = self.truth(v, st, n)
        if t is not None and vt != v:
            self.narrow(n, vt, t)
        if f is not None and vf != v:
            self.narrow(n, vf, f)
        return v, t, f, vt, vf

    def cond_symattr(self, n, st):
        """expr.is_Add and friends on symbolic values"""
        base = self.eval(n.value, st)
        v = self.getattr(base, n.attr, n, st)
        syms = [a for a in base if a.k == "sym"]
        if len(base) == 1 and syms and not (self.naming and all(x.k == "bool" and x.p is not None for x in v)):
            yes, no = self.models.KIND_ATTRS[n.attr]
            a = syms[0]
            ct = a.p.cls & yes
            cf = a.p.cls & no
            t = f = None
            if ct:
                t = st.copy()
                self.narrow(n.value, frozenset([Atom("sym", a.p.rep(cls=ct), a.l)]), t)
                self.branch(t, cf, av_labels(base))
            if cf:
                f = st.copy()
                self.narrow(n.value, frozenset([Atom("sym", a.p.rep(cls=cf), a.l)]), f)
                self.branch(f, ct, av_labels(base))
            return v, t, f, ABool(True), ABool(False)
        t, f, vt, vf = self.truth(v, st, n)
        return v, t, f, vt, vf

    def branch(self, st, undecided, labels=EMPTY):
        if undecided:
            st.exact = False
        if labels:
            st.pc = st.pc | frozenset(x for x in labels if isinstance(x, str) and (x.startswith("P:") or strong(x)))

    def narrow(self, n, v, st):
        if isinstance(n, ast.Name):
            fo = self.get(st, self.ctx.frame)
            if n.id in fo.fields and n.id not in self.ctx.globals:
                f = dict(fo.fields)
                f[n.id] = v
                st.heap[self.ctx.frame] = fo.rep(fields=f)
                return
            s = fo.cls[1] if isinstance(fo.cls, tuple) else None
            while s is not None:
                o = self.get(st, s)
                if o is None or o.kind == "module":
                    return
                if n.id in o.fields:
                    if not o.summary:
                        f = dict(o.fields)
                        f[n.id] = v
                        st.heap[s] = o.rep(fields=f)
                    return
                s = o.cls[1] if isinstance(o.cls, tuple) else None
        elif isinstance(n, ast.NamedExpr):
            self.narrow(n.target, v, st)
        elif isinstance(n, ast.Attribute):
            try:
                sub = st.copy()
                sr = self.ctx.raises
                self.ctx.raises = []
                ob = self.eval(n.value, sub)
                self.ctx.raises = sr
            except Dead:
                self.ctx.raises = sr
                return
            if len(ob) == 1:
                a, = ob
                if a.k == "ref":
                    o = self.get(st, a.p)
                    if o is not None and o.kind == "inst" and not o.summary and n.attr in o.fields:
                        f = dict(o.fields)
                        f[n.attr] = v
                        st.heap[a.p] = o.rep(fields=f)

    def truth(self, v, st, n):
        """split on truthiness: (t, f, vt, vf)"""
        T, F = EMPTY, EMPTY
        st_t, st_f = None, None
        tstates, fstates = [], []
        for a in v:
            yes, no, at, af = self.models.truth_atom(a, st, n)
            if yes is not None:
                tstates.append(yes)
                T |= frozenset([at])
            if no is not None:
                fstates.append(no)
                F |= frozenset([af])
        t = join_all(tstates)
        f = join_all(fstates)
        labs = av_labels(v)
        if t is not None:
            t = t.copy() if (t is st or t is f) else t
            self.branch(t, f is not None and not self.decided_by_cons(v), labs)
        if f is not None:
            f = f.copy() if f is st else f
            self.branch(f, t is not None and not self.decided_by_cons(v), labs)
        return t, f, T, F

    def decided_by_cons(self, v):
        """the split added its exact condition to the constraints"""
        if len(v) != 1:
            return False
        a, = v
        return (a.k == "bool" and isinstance(a.p, tuple)) or (a.k == "int" and isinstance(a.p, Lin))

    def cond_isinstance(self, n, st):
        v = self.eval(n.args[0], st)
        cl = self.eval(n.args[1], st)
        yes, no, unk = EMPTY, EMPTY, False
        for a in v:
            r, at, af = self.models.isinstance_atom(a, cl, st)
            if r is not False:
                yes = av_join(yes, at)
            if r is not True:
                no = av_join(no, af)
        t = f = None
        if yes:
            t = st.copy()
            if yes != v:
                self.narrow(n.args[0], yes, t)
        if no:
            f = st.copy()
            if no != v:
                self.narrow(n.args[0], no, f)
        if t is not None:
            self.branch(t, f is not None, EMPTY)
        if f is not None:
            self.branch(f, t is not None, EMPTY)
        return t, f

    def cond_compare(self, ln, op, rn, n, st):
        a = self.eval(ln, st)
        b = self.eval(rn, st)
        a, b = unhash(op, a, b)
        labs = av_labels(a) | av_labels(b)
        # identity / equality with constants: filter
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            eq = isinstance(op, (ast.Is, ast.Eq))
            r = self.models.eq_filter(a, b, op, ln, rn, st, self)
            if r is not None:
                t, f = r
                if t is not None:
                    self.branch(t, f is not None and not getattr(self, "_exactcmp", False), labs)
                if f is not None:
                    self.branch(f, t is not None and not getattr(self, "_exactcmp", False), labs)
                return (t, f) if eq else (f, t)
        v = self.models.compare(op, a, b, n, st)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.models.in_ints(a, b, st)
            if r is not None:
                pos, neg = r
                return (pos, neg) if isinstance(op, ast.In) else (neg, pos)
            t, f, vt, vf = self.truth(v, st, n)
            pos = t if isinstance(op, ast.In) else f
            if pos is not None:
                self.models.assume_nonempty(b, pos)
            # x in (c1, c2): filter
            r = self.models.in_filter(a, b, st)
            if r is not None:
                yes, no = r
                neg = f if isinstance(op, ast.In) else t
                if not yes:
                    pos = None
                elif pos is not None:
                    self.narrow(ln, yes, pos)
                if not no:
                    neg = None
                elif neg is not None:
                    self.narrow(ln, no, neg)
                return (pos, neg) if isinstance(op, ast.In) else (neg, pos)
            return t, f
        t, f, vt, vf = self.truth(v, st, n)
        return t, f

    # ------------------------------------------------------------- operators
    def binop(self, op, a, b, node, st):
        name = OPNAMES[type(op).__name__]
        out = EMPTY
        fails = []
        for x in a:
            for y in b:
                sub = st
                r = self.binop1(name, x, y, node, st)
                if r is None:
                    fails.append((x, y))
                else:
                    if self.lossy and name in ("mod", "floordiv") and x.k == "int":
                        r = self.lose(r, st)
                    out = av_join(out, r)
        if fails:
            x, y = fails[0]
            self.synth(st, node, "TypeError", "unsupported operand types for %s: %s and %s" % (
                OPSYM.get(name, name), self.tname(x, st), self.tname(y, st)), partial=bool(out))
        return out

    def tname(self, a, st):
        if a.k == "ref":
            o = self.get(st, a.p)
            return cname(o.cls) if o.kind == "inst" else o.kind
        if a.k == "extobj":
            return a.p[0]
        if a.k == "none":
            f = [x[4:] for x in a.l if str(x).startswith("nil:")]
            if f:
                return "None (returned by %s)" % sorted(f)[0]
        return a.k

    def binop1(self, name, x, y, node, st):
        """AV, or None for a definite TypeError"""
        if x.k == "top" or y.k == "top":
            return mk("top", None, x.l | y.l)
        xi = x.k == "ref" and self.get(st, x.p).kind == "inst"
        yi = y.k == "ref" and self.get(st, y.p).kind == "inst"
        X, Y = frozenset([x]), frozenset([y])
        if xi:
            cls = self.get(st, x.p).cls
            f = self.class_lookup(cls, "__%s__" % name, st)
            if f is not None:
                r = self.call(self.bind_method(f, x, cls), [Y], {}, node, st)
                rest = frozenset(q for q in r if q.k != "nimpl")
                if len(rest) == len(r):
                    return r
                if yi:
                    f2 = self.class_lookup(self.get(st, y.p).cls, "__r%s__" % name, st)
                    if f2 is not None:
                        r2 = self.call(self.bind_method(f2, y, self.get(st, y.p).cls), [X], {}, node, st)
                        rest = av_join(rest, frozenset(q for q in r2 if q.k != "nimpl"))
                        return rest or None
                return rest or None
        if yi:
            cls = self.get(st, y.p).cls
            if not xi:
                r0 = self.models.binop_prim(name, x, y, node, st)
                if r0 is not None:
                    return r0
            f2 = self.class_lookup(cls, "__r%s__" % name, st)
            if f2 is not None:
                r2 = self.call(self.bind_method(f2, y, cls), [X], {}, node, st)
                rest = frozenset(q for q in r2 if q.k != "nimpl")
                return rest or None
            return None
        if xi:
            return None
        return self.models.binop_prim(name, x, y, node, st)

    # ------------------------------------------------------------- attributes
    def class_lookup(self, cls, name, st):
        """raw class attribute AV along the mro"""
        for c in cls.mro:
            if isinstance(c, ClassObj):
                ns = self.get(st, c.site)
                if name in ns.fields:
                    return ns.fields[name]
        return None

    def bind_method(self, v, selfatom, cls):
        out = set()
        for a in v:
            if a.k in ("fn", "memo"):
                out.add(Atom("bm", (selfatom, a)))
            elif a.k == "static":
                out.add(a.p)
            elif a.k == "classm":
                out.add(Atom("bm", (Atom("cls", cls), a.p)))
            else:
                out.add(a)
        return frozenset(out)

    def getattr(self, ob, name, node, st):
        out = EMPTY
        fails = []
        for a in ob:
            r = self.getattr1(a, name, node, st)
            if r is None:
                fails.append(a)
            else:
                out = av_join(out, r)
        if fails:
            self.synth(st, node, "AttributeError", "%s object has no attribute %r" % (
                self.tname(fails[0], st), name), partial=bool(out))
        return out

    def getattr1(self, a, name, node, st):
        k = a.k
        if k == "top":
            return mk("top", None, a.l)
        if k == "ref":
            o = self.get(st, a.p)
            if o.kind == "inst":
                cv = self.class_lookup(o.cls, name, st)
                if cv is not None:
                    props = [x for x in cv if x.k == "prop"]
                    if props:
                        return self.call(frozenset([props[0].p]), [frozenset([a])], {}, node, st)
                if name in o.fields:
                    v = o.fields[name]
                    v2 = frozenset(x for x in v if x.k != "unbound")
                    if v2 != v:
                        if cv is not None:
                            v2 = av_join(v2, self.bind_method(cv, a, o.cls))
                        if not v2:
                            return None
                    if o.flags:
                        self.ev("read", node, (name, o.flags))
                        v2 = frozenset(x.with_l(x.l | frozenset("own:" + str(f) for f in o.flags)) if x.k == "extobj" else x for x in v2)
                    return av_add_labels(v2, frozenset(x for x in a.l if isinstance(x, str) and x.startswith("nondet:")))
                if cv is not None:
                    if any(x.k in ("int", "str", "bool", "none") for x in cv):
                        self.ev("gread", node, (o.cls.name, name))
                    return self.bind_method(cv, a, o.cls)
                if o.flags:
                    self.ev("read", node, (name, o.flags))
                if name == "__class__":
                    return mk("cls", o.cls)
                if name == "__dict__":
                    self.ev("read", node, ("__dict__", o.flags))
                    return mk("extobj", ("__dict__", a.p), a.l)
                f = self.class_lookup(o.cls, "__getattr__", st)
                if f is not None:
                    return self.call(self.bind_method(f, a, o.cls), [AStr(name)], {}, node, st)
                if any(not isinstance(c, ClassObj) and c not in ("object", "abc.ABC", "builtins.object") for c in o.cls.mro):
                    return TOP
                r = self.models.object_attr(a, name, node, st)
                return r
            return self.models.attr_ref(a, o, name, node, st)
        if k == "mod":
            m = self.get(st, ("module", a.p))
            if m is not None and name in m.fields:
                v = m.fields[name]
                self.global_read(st, node, a.p, name, v)
                return v
            if a.p + "." + name in self.prog.modules:
                return mk("mod", a.p + "." + name)
            if m is not None and "starext" in m.flags:
                return TOP
            return None
        if k == "ext":
            return self.models.ext_attr(a, name, node, st)
        if k == "extobj" and a.p[0] == "__dict__":
            return mk("meth", (a, name)) if name in self.models.IDICT else TOP
        if k == "cls":
            cv = self.class_lookup(a.p, name, st)
            if cv is not None:
                out = set()
                for x in cv:
                    if x.k == "static":
                        out.add(x.p)
                    elif x.k == "classm":
                        out.add(Atom("bm", (a, x.p)))
                    else:
                        out.add(x)
                        if x.k in ("ref", "int", "str", "bool", "none"):
                            self.ev("gread", node, (a.p.name, name))
                return frozenset(out)
            if name == "__name__":
                return AStr(a.p.name)
            if name == "__new__":
                return mk("ext", "object.__new__")
            if name in ("__init__", "__doc__", "__module__", "__qualname__"):
                return mk("ext", "object." + name)
            return None if not any(not isinstance(c, ClassObj) and c not in ("object", "abc.ABC", "typing.*") for c in a.p.mro) else TOP
        if k == "super":
            selfatom, cls = a.p
            so = self.get(st, selfatom.p) if selfatom.k == "ref" else None
            mro = so.cls.mro if so is not None and so.kind == "inst" else cls.mro
            try:
                i = mro.index(cls)
            except ValueError:
                i = 0
            for c in mro[i + 1:]:
                if isinstance(c, ClassObj):
                    ns = self.get(st, c.site)
                    if name in ns.fields:
                        return self.bind_method(ns.fields[name], selfatom, c)
            return mk("ext", "object." + name)
        if k in ("fn", "bm", "memo", "partial"):
            if name in ("__name__", "__qualname__", "__doc__", "__module__"):
                return AStr(None)
            if name == "__wrapped__" and k == "memo":
                return frozenset([a.p.inner])
            if name == "__func__" and k == "bm":
                return frozenset([a.p[1]])
            if name == "__self__" and k == "bm":
                return frozenset([a.p[0]])
            if k == "memo" and name in ("cache_clear", "cache_info"):
                return mk("ext", "functools.cache." + name)
            self.note("fnattr", name, node)
            return TOP
        return self.models.attr_prim(a, name, node, st)

    def describe(self, v):
        """which value, for values that can be told apart: functions and constants"""
        out = set()
        for a in v:
            x = a
            while x.k in ("bm", "memo", "partial"):
                x = x.p[1] if x.k == "bm" else x.p.inner if x.k == "memo" else x.p[0]
                if isinstance(x, frozenset):
                    x = next(iter(x))
            if x.k == "fn":
                out.add("function %s at line %d" % (x.p.qual, getattr(x.p.node, "lineno", 0)))
            elif a.k in ("int", "str", "bool", "float"):
                ok, c = const_of(frozenset([a]))
                out.add(repr(c) if ok and c is not None else "?")
            elif a.k != "none":
                out.add("?")
        return tuple(sorted(out))

    def coarse(self, v, node, st, depth=3):
        """what is remembered of a value put into storage that outlives the call: kinds, labels and flags,
        without lengths and numbers (they would distinguish every state such storage can be in)"""
        out = EMPTY
        for a in v:
            o = self.get(st, a.p) if a.k == "ref" else None
            if a.k == "int":
                out = av_join(out, AInt(None, a.l))
            elif a.k == "sym":
                out = av_join(out, frozenset([Atom("sym", a.p.rep(val=None), a.l)]))
            elif o is not None and o.kind in ("list", "tuple", "set", "dict", "iter") and depth and a.p not in self.base:
                site = ("s", node._nid, "kept%d" % depth)
                n = Obj(o.kind, None, {}, None, self.coarse(av_join(o.elems(), frozenset().union(*o.fields.values()) if o.fields else EMPTY),
                                                            node, st, depth - 1),
                        None, o.flags, True, ordt=o.ordt, keyl=self.coarse(o.keyl, node, st, depth - 1))
                if o.kind != "dict":
                    n = n.rep(fields=None)
                old = self.get(st, site)
                if old is not None and old != n:
                    n = obj_join(old, n)
                st.heap[site] = n
                out = av_join(out, frozenset([Atom("ref", site, a.l)]))
            else:
                out = av_join(out, frozenset([a]))
        return out

    EXT_CHANGES = {"insert", "pop", "update", "fill", "put", "itemset", "popitem"}

    def ext_change(self, a, op, node):
        """a library object that belongs to something the analysis follows is changed"""
        fl = frozenset(x[4:] for x in a.l if isinstance(x, str) and x.startswith("own:"))
        if fl:
            self.ev("mutate", node, (op, fl, a.p[0].split(".")[1] if "." in a.p[0] else a.p[0], ""))

    def setattr(self, ob, name, v, node, st):
        single = len(ob) == 1
        for a in ob:
            if a.k == "extobj":
                self.ext_change(a, "assignment to ." + name, node)
            if a.k == "ref":
                o = self.get(st, a.p)
                if o.kind in ("inst", "classns", "module"):
                    if o.kind == "inst":
                        cv = self.class_lookup(o.cls, name, st)
                        props = [x for x in (cv or ()) if x.k == "prop"]
                        if props:
                            self.note("property-set", name, node)
                    if o.flags:
                        self.ev("mutate", node, ("assignment to attribute", o.flags, cname(o.cls), name))
                        self.ev("aset", node, (name, o.flags, cname(o.cls), self.plabels(v, st), self.describe(v)))
                        kf = frozenset("kept:" + str(x) for x in o.flags if str(x).startswith(("global:", "recv", "cached:")))
                        self.mark_reach(st, [v], kf | {"keptas:" + name} if kf else kf)
                        o = self.get(st, a.p)
                        if any(str(x).startswith(("global:", "recv", "cached:")) for x in o.flags):
                            pl = self.plabels(v, st)
                            if any(not x.startswith("P:self") for x in pl) and any(x.k == "ref" for x in v):
                                v = mk("top", None, pl)     # working data of one call: already reported as such
                            else:
                                v = self.coarse(v, node, st)
                    f = dict(o.fields)
                    if single and not o.summary:
                        f[name] = v
                    else:
                        f[name] = av_join(f.get(name, UNBOUND if single else EMPTY), v)
                    st.heap[a.p] = o.rep(fields=f)
                    if o.flags & {"recv"} or any(x.startswith("arg:") for x in o.flags if isinstance(x, str)):
                        pass
                else:
                    self.mutate(st, a, node, "attribute", name)
            elif a.k == "cls":
                o = self.get(st, a.p.site)
                self.ev("mutate", node, ("assignment to class attribute", o.flags, a.p.name, name))
                self.ev("aset", node, (name, o.flags | {"global:class " + a.p.name}, a.p.name, self.plabels(v, st), self.describe(v)))
                f = dict(o.fields)
                f[name] = av_join(f.get(name, EMPTY), v)
                st.heap[a.p.site] = o.rep(fields=f)
            elif a.k == "mod":
                o = self.get(st, ("module", a.p))
                self.ev("mutate", node, ("assignment to module attribute", o.flags, a.p, name))
                self.ev("aset", node, (name, o.flags, a.p, self.plabels(v, st), self.describe(v)))
                f = dict(o.fields)
                f[name] = av_join(f.get(name, EMPTY), v)
                st.heap[("module", a.p)] = o.rep(fields=f)
            elif a.k == "fn":
                self.ev("mutate", node, ("function attribute", frozenset(["global:function " + a.p.qual]), "function", name))
                self.ev("aset", node, (name, frozenset(["global:function " + a.p.qual]), a.p.qual, self.plabels(v, st), self.describe(v)))
                self.note("fnattr-set", name, node)
            elif a.k == "ext":
                self.ev("mutate", node, ("external attribute", frozenset(["global:" + a.p]), "ext", name))
                self.ev("io", node, ("interpreter setting", a.p + "." + name))
            elif a.k == "none":
                self.synth(st, node, "AttributeError", "None has no attribute %r" % name, partial=len(ob) > 1)

    # ------------------------------------------------------------- calls
    def call(self, f, args, kwargs, node, st):
        """call every callable in f; joins results"""
        if len(f) == 1:
            a, = f
            r = self.call1(a, args, kwargs, node, st)
            return av_add_labels(r, a.l) if a.l else r
        res = EMPTY
        out = None
        for a in sorted(f, key=repr):
            s = st.copy()
            s.exact = False
            try:
                r = self.call1(a, args, kwargs, node, s)
            except Dead:
                continue
            res = av_join(res, r)
            out = state_join(out, s)
        if out is None:
            raise Dead()
        st.set(out)
        return res

    def call1(self, a, args, kwargs, node, st):
        k = a.k
        if k == "fn":
            return self.call_fn(a, args, kwargs, node, st)
        if k == "bm":
            return self.call1(a.p[1], [frozenset([a.p[0]])] + list(args), kwargs, node, st)
        if k == "cls":
            return self.instantiate(a.p, args, kwargs, node, st)
        if k == "ext":
            return self.models.call_ext(a.p, args, kwargs, node, st)
        if k == "meth":
            return self.models.call_method(a.p[0], a.p[1], args, kwargs, node, st)
        if k == "memo":
            return self.call_memo(a, args, kwargs, node, st)
        if k == "partial":
            fn, pargs, pkw = a.p
            kw = dict(pkw)
            kw.update(kwargs)
            return self.call1(fn, list(pargs) + list(args), kw, node, st)
        if k == "static":
            return self.call1(a.p, args, kwargs, node, st)
        if k == "deco":
            return self.models.call_deco(a, args, kwargs, node, st)
        if k == "hookfn":
            return a.p.fn(self, args, kwargs, node, st)
        if k == "top" or k == "extobj":
            if k == "extobj" and a.p[0].startswith("figure.") and a.p[0].split(".")[-1] in ("savefig", "print_png", "print_figure"):
                self.ev("io", node, ("save", a.p[0]))
                self.may_fail(st, node, "the file cannot be written")
                return NONE
            if k == "extobj" and a.p[0].startswith("figure.") and a.p[0].count(".") == 1:
                r = self.models.figure_method(a, a.p[0][7:], args, kwargs, node, st)
                if r is not None:
                    return r
            if k == "extobj" and a.l:
                m = a.p[0].split(".")[-1]
                if m in self.EXT_CHANGES or any(x.k == "bool" and x.p is True for x in kwargs.get("inplace", ())):
                    self.ext_change(a, m, node)
            figs = self.figs_in(list(args) + list(kwargs.values()))
            if figs:
                self.figs_closed(st, figs)
            if k == "extobj":
                last = a.p[0].split(".")[-1]
                if last in ("tolist", "to_list") and not args and not kwargs and a.p[0].count("."):
                    # a numpy or pandas value written out: always a new list
                    return av_add_labels(self.new_list(st, node, None, TOP, None, tag="tolist"), a.l - frozenset(x for x in a.l if str(x).startswith("own:")))
                for pre, names, what in self.models.EXT_EFFECTS:
                    if a.p[0].startswith(pre) and last in names:
                        self.ev("io", node, (what, a.p[0]))
            self.note("call", "unknown callee", node)
            self.models.escape(args, kwargs, node, st, "unknown callee")
            return mk("top", None, frozenset().union(*[av_labels(x) for x in args if not isinstance(x, tuple)]) if args else EMPTY)
        if k == "ref":
            o = self.get(st, a.p)
            if o.kind == "inst":
                f = self.class_lookup(o.cls, "__call__", st)
                if f is not None:
                    return self.call(self.bind_method(f, a, o.cls), args, kwargs, node, st)
        self.synth(st, node, "TypeError", "%s object is not callable" % self.tname(a, st))

    def instantiate(self, cls, args, kwargs, node, st):
        for c in cls.mro:
            if not isinstance(c, ClassObj) and c.split(".")[-1] in ("Exception", "ValueError", "TypeError", "RuntimeError"):
                return mk("extobj", (cls.name, None))
        o = Obj("inst", cls, {})
        tmp = ("s", self.nid(node), "new:" + cls.name)
        had = tmp in st.heap
        st.heap[tmp] = o
        at = Atom("ref", tmp)
        init = self.class_lookup(cls, "__init__", st)
        if init is not None:
            self.call(self.bind_method(init, at, cls), args, kwargs, node, st)
        elif args or kwargs:
            if not any(not isinstance(c, ClassObj) and c not in ("object", "builtins.object", "abc.ABC") for c in cls.mro):
                self.synth(st, node, "TypeError", "%s() takes no arguments" % cls.name)
        # publish under the stable name
        site = ("s", self.nid(node), cls.name)
        ren = Renamer(lambda s: site if s == tmp else s, lambda s: Lin.sym(s))
        new = ren.obj(st.heap.pop(tmp))
        # self references elsewhere
        for s, ob in list(st.heap.items()):
            if s in self.base:
                continue
            if self.refers(ob, tmp):
                st.heap[s] = ren.obj(ob)
        old = self.get(st, site)
        if old is not None:
            new = obj_join(old, new.rep(summary=True)).rep(summary=True)
        st.heap[site] = new
        return frozenset([Atom("ref", site)])

    def refers(self, o, site):
        def in_av(v):
            for a in v:
                if a.k == "ref":
                    if a.p == site:
                        return True
                elif a.k == "bm":
                    if a.p[0].k == "ref" and a.p[0].p == site:
                        return True
                elif a.k in ("super", "partial", "meth"):
                    if site_in(a.p, site):
                        return True
            return False
        for v in o.fields.values():
            if in_av(v):
                return True
        if o.items is not None and any(in_av(v) for v in o.items):
            return True
        return in_av(o.elem) or in_av(o.keyl)

    def call_memo(self, a, args, kwargs, node, st):
        for v in args:
            if isinstance(v, tuple):
                continue
            bad = [x for x in v if x.k == "ref" and self.get(st, x.p).kind in ("list", "dict", "set")]
            if bad:
                self.synth(st, node, "TypeError", "unhashable type: %r (argument of a cached function)" %
                           self.get(st, bad[0].p).kind, partial=len(bad) < len(v))
        qual = a.p.inner.p.qual if a.p.inner.k == "fn" else "cached"
        self.ev("memo", node, (qual,))
        outer = self.ctx.events
        self.ctx.events = {}
        try:
            r = self.call1(a.p.inner, args, kwargs, node, st)
        finally:
            inner, self.ctx.events = self.ctx.events, outer
            for k, e in inner.items():
                outer.setdefault(k, e)
                if e.kind in ("read", "gread"):
                    x = Ev("mread", e.loc, (e.data, qual), e.chain)
                    outer.setdefault(x.key(), x)
        # what a cache hands out is shared by every caller that hits it
        reach = self.mark_reach(st, [r], frozenset(["cached:" + qual]), kinds=("list", "dict", "set", "inst", "opaque"))
        return r

    def bind_args(self, fn, args, kwargs, node, st):
        """parameter -> AV; TypeError on mismatch"""
        A = fn.node.args
        pos = [x.arg for x in A.posonlyargs + A.args]
        out = {}
        star = None
        plain = []
        for v in args:
            if isinstance(v, tuple):
                star = av_join(star or EMPTY, self.models.iter_elem(v[1], node, st))
            elif star is not None:
                star = av_join(star, v)
            else:
                plain.append(v)
        kwargs = dict(kwargs)
        kwstar = kwargs.pop("**", None)
        extra = plain[len(pos):]
        for p, v in zip(pos, plain):
            out[p] = v
        if extra:
            if A.vararg is None:
                self.synth(st, node, "TypeError", "%s() takes %d positional arguments but %d were given" % (
                    fn.qual, len(pos), len(plain)))
        if star is not None:
            for p in pos[len(plain):]:
                if p not in kwargs:
                    out[p] = star
        if A.vararg is not None:
            if star is not None:
                e = star
                for x in extra:
                    e = av_join(e, x)
                out[A.vararg.arg] = ("tuple*", None, e)
            else:
                out[A.vararg.arg] = ("tuple", extra, None)
        kwonly = [x.arg for x in A.kwonlyargs]
        rest = {}
        posonly = {x.arg for x in A.posonlyargs}
        for k, v in kwargs.items():
            if (k in pos and k not in posonly) or k in kwonly:
                if k in out and k in pos[:len(plain)]:
                    self.synth(st, node, "TypeError", "%s() got multiple values for argument %r" % (fn.qual, k))
                out[k] = v
            else:
                rest[k] = v
        if rest and A.kwarg is None:
            self.synth(st, node, "TypeError", "%s() got an unexpected keyword argument %r" % (fn.qual, sorted(rest)[0]))
        if A.kwarg is not None:
            out[A.kwarg.arg] = ("dict", rest, kwstar)
        nd = len(fn.defaults)
        for i, p in enumerate(pos):
            if p not in out:
                j = i - (len(pos) - nd)
                if j >= 0:
                    out[p] = fn.defaults[j]
                elif kwstar is not None:
                    out[p] = TOP
                else:
                    self.synth(st, node, "TypeError", "%s() missing required argument %r" % (fn.qual, p))
        kd = dict(fn.kwdefaults)
        for p in kwonly:
            if p not in out:
                if p in kd:
                    out[p] = kd[p]
                elif kwstar is not None:
                    out[p] = TOP
                else:
                    self.synth(st, node, "TypeError", "%s() missing required keyword-only argument %r" % (fn.qual, p))
        return out

    def call_fn(self, fatom, args, kwargs, node, st):
        fn = fatom.p
        self.ncalls += 1
        hook = self.hooks.get(fn.node)
        bound = self.bind_args(fn, args, kwargs, node, st)
        for k, v in list(bound.items()):
            if isinstance(v, tuple):
                if v[0] == "tuple":
                    bound[k] = self.new_list(st, node, v[1], kind="tuple", tag="va:" + k)
                elif v[0] == "tuple*":
                    bound[k] = self.new_list(st, node, None, v[2], None, kind="tuple", tag="va:" + k)
                else:
                    fields = {("k", n): x for n, x in v[1].items()}
                    bound[k] = self.alloc(st, node, Obj("dict", None, fields, None, TOP if v[2] else EMPTY, None,
                                                        keyl=AStr(None)), "kw:" + k)
        if hook is not None:
            r = hook(self, fn, bound, node, st)
            if r is not None:
                return r
        r = self.run_isolated(fn, bound, node, st)
        post = self.post.get(fn.node)
        if post is not None:
            r = post(self, fn, bound, r, node, st)
        return r

    # ---- isolation
    def free_names(self, node):
        return scope_info(node)[1]

    def canon(self, fn, bound, st):
        """canonical copy of everything fn can reach"""
        order = []          # actual sites in discovery order
        idx = {}
        frames = {}         # frame site -> ordered list of names needed
        work = []

        def see(v):
            for a in sorted(v, key=self.akey):
                self_visit(a)

        def self_visit(a):
            if a.k == "ref":
                add(a.p)
            elif a.k == "fn":
                see_fn(a.p)
            elif a.k == "bm":
                self_visit(a.p[0])
                self_visit(a.p[1])
            elif a.k == "memo":
                self_visit(a.p.inner)
            elif a.k in ("static", "classm", "prop"):
                self_visit(a.p)
            elif a.k == "partial":
                self_visit(a.p[0])
                for x in a.p[1]:
                    see(x)
                for _, x in a.p[2]:
                    see(x)
            elif a.k == "super":
                self_visit(a.p[0])
            elif a.k == "meth":
                self_visit(a.p[0])
            elif a.k == "deco":
                for x in a.p[1:]:
                    if isinstance(x, Atom):
                        self_visit(x)

        def add(s):
            if s in idx or s in frames:
                return
            if s in self.base and (s not in st.heap or st.heap[s] is self.base[s]):
                return
            if s in self.base:
                return        # changed globals handled separately
            idx[s] = len(order)
            order.append(s)
            work.append(s)

        def see_fn(f):
            for d in f.defaults:
                see(d)
            for _, d in f.kwdefaults:
                see(d)
            if f.closure is None or f.closure in self.base:
                return
            for name in sorted(self.free_names(f.node)):
                s = f.closure
                while s is not None and s not in self.base:
                    fo = self.get(st, s)
                    if fo is None:
                        break
                    if s not in frames:
                        frames[s] = set()
                        idx[s] = len(order)
                        order.append(s)
                    if name in fo.fields:
                        if name not in frames[s]:
                            frames[s].add(name)
                            see(fo.fields[name])
                        break
                    s = fo.cls[1] if isinstance(fo.cls, tuple) else None

        for p in sorted(bound):
            see(bound[p])
        see_fn(fn)
        if self.initst is None:
            # what changed shared storage holds now
            for s in sorted((s for s, o in st.heap.items() if s in self.base and o is not self.base[s]), key=repr):
                o = st.heap[s]
                for k in sorted(o.fields, key=str):
                    see(o.fields[k])
                if o.items is not None:
                    for v in o.items:
                        see(v)
                see(o.elem)
                see(o.keyl)
        while work:
            s = work.pop(0)
            o = self.get(st, s)
            if o is None:
                continue
            for k in sorted(o.fields, key=str):
                see(o.fields[k])
            if o.items is not None:
                for v in o.items:
                    see(v)
            see(o.elem)
            see(o.keyl)
        # symbols
        acc = []
        for p in sorted(bound):
            lins_in(bound[p], acc)
        objs = []
        for s in order:
            o = self.get(st, s)
            if s in frames:
                o = o.rep(fields={k: o.fields[k] for k in sorted(frames[s])})
            objs.append(o)
            if o.len is not None:
                lins_in(o.len, acc)
            for k in sorted(o.fields, key=str):
                lins_in(o.fields[k], acc)
            if o.items is not None:
                for v in o.items:
                    lins_in(v, acc)
            lins_in(o.elem, acc)
            if o.vn is not None:
                lins_in(o.vn, acc)
        symmap = {}
        for i, s in enumerate(acc):
            symmap[s] = s if isinstance(s, str) else ("v", i)
        return order, idx, objs, symmap, frames

    def akey(self, a):
        if a.k == "ref":
            return "ref" + repr(a.p)
        return a.k + repr(a.p)

    def run_isolated(self, fn, bound, node, st):
        order, idx, objs, symmap, frames = self.canon(fn, bound, st)
        fs = lambda s: ("a", idx[s]) if s in idx else s
        fl = lambda s: Lin.sym(symmap[s]) if s in symmap else None
        ren = Renamer(fs, fl)
        cb = {p: ren.av(v) for p, v in bound.items()}
        cobjs = [ren.obj(o) for o in objs]
        ccons = ren.cons(Cons([e for e in st.cons.ge if e.syms() <= set(symmap)],
                              [e for e in st.cons.ne if e.syms() <= set(symmap)]))
        if self.initst is not None:
            glob = tuple((s, o) for s, o in st.heap.items() if s not in idx)
        else:
            glob = tuple(sorted(((s, ren.obj(o)) for s, o in st.heap.items() if s in self.base and o is not self.base[s]
                                 and o != self.base[s]), key=lambda x: repr(x[0])))
        cfn = ren.any(fn)
        grp = (fn.node, fn_sig(cb, cobjs, cfn))
        nk = self.nkeys.setdefault(grp, set())
        key = (cfn, tuple(sorted(cb.items())), tuple(cobjs), ccons, glob)
        depth = sum(1 for e in self.stack if e["grp"] == grp)
        if (len(nk) >= (10 * MAX_KEYS if self.naming else MAX_KEYS) or depth >= self.gen_depth) and key not in self.memo:
            # generalise: forget the numbers
            # (of the numbers, those of the space itself stay: dimensions do not change in a recursion)
            keep = depth < self.gen_depth + KEEP_EXTRA and len(nk) < KEEP_KEYS
            g = Renamer(lambda s: s, (lambda s: Lin.sym(s) if s in DIMS else None) if keep else (lambda s: None))
            cb2 = {p: self.generalise(g.av(v), depth) for p, v in cb.items()}
            cobjs2 = [self.generalise_obj(g.obj(o), depth) for o in cobjs]
            ccons2 = Cons([e for e in ccons.ge if e.syms() <= DIMS], [e for e in ccons.ne if e.syms() <= DIMS]) if keep else Cons()
            key2 = (g.any(cfn), tuple(sorted(cb2.items())), tuple(cobjs2), ccons2, glob)
            if depth >= self.gen_depth:
                # join with the arguments of the previous activation of the same function
                prev = [e for e in self.stack if e["grp"] == grp][-1]
                if len(prev["objs"]) == len(cobjs2) and depth >= self.gen_depth + JOIN_EXTRA:
                    try:
                        cobjs2 = [obj_join(x, y) for x, y in zip(cobjs2, prev["objs"])]
                        cb2 = {p: av_join(v, prev["cb"].get(p, EMPTY)) for p, v in cb2.items()}
                        key2 = (g.any(cfn), tuple(sorted(cb2.items())), tuple(cobjs2), ccons2, glob)
                    except AssertionError:
                        pass
            cb, cobjs, ccons, key = cb2, cobjs2, ccons2, key2
            cfn = key[0]
        if self.initst is not None:
            key = (len(self.memo), self.ncalls)
        else:
            nk.add(key)
        summ = self.memo.get(key)
        if summ is None:
            summ = self.analyse(key, cfn, cb, cobjs, ccons, glob, node, grp)
        if summ is None:
            raise Dead()     # bottom of a recursion not yet known to return
        if self.naming:
            name = self.exact_call(fn, bound, st)
            r = self.replay(summ, fn, order, idx, symmap, frames, node, st, {s for s, _ in glob})
            return self.name_result(r, name, idx, st)
        return self.replay(summ, fn, order, idx, symmap, frames, node, st, {s for s, _ in glob})

    # ---- naming of values (used by checks that compare two computations)
    def exact_call(self, fn, bound, st):
        """a name for the result of a call: the function and everything it is given, if all of it is known exactly"""
        x = Exact(self, st)
        try:
            n = ("call", fn.qual, x.fn(fn), tuple((p, x.av(bound[p])) for p in sorted(bound)))
            return x.token(n)
        except Inexact:
            return None

    def name_result(self, r, name, old, st):
        def sym(a, path, single):
            if single and a.p.val is not None:
                return a
            return Atom("sym", a.p.rep(val=poly_atom(name + (path,)) if name is not None else None), a.l)

        def av(v, path, single, depth=3):
            single = single and len(v) == 1
            out = []
            for a in v:
                if a.k == "sym":
                    a = sym(a, path, single)
                elif a.k == "ref" and depth and a.p not in old and a.p not in self.base:
                    o = self.get(st, a.p)
                    if o is not None and not o.summary:
                        if o.kind == "inst":
                            f = {k: av(x, path + "." + str(k), single, depth - 1) for k, x in o.fields.items()}
                            if any(f[k] is not o.fields[k] for k in f):
                                st.heap[a.p] = o.rep(fields=f)
                        elif o.kind in ("list", "tuple"):
                            if o.items is not None and single:
                                it = tuple(av(x, path + "." + str(i), single, depth - 1) for i, x in enumerate(o.items))
                                if any(x is not y for x, y in zip(it, o.items)):
                                    st.heap[a.p] = o.rep(items=it)
                            elif name is not None and (o.vn is None or not single):
                                st.heap[a.p] = o.rep(vn=name + (path,))
                out.append(a)
            n = frozenset(out)
            return v if n == v else n
        return av(r, "", True)

    def generalise(self, v, depth):
        if depth < self.gen_depth:
            return v
        out = EMPTY
        for a in v:
            if a.k == "int":
                if not (a.p is not None and depth < self.gen_depth + KEEP_EXTRA and a.p.syms() and a.p.syms() <= DIMS):
                    a = Atom("int", None, a.l)
            elif a.k == "sym":
                a = Atom("sym", Sym(a.p.cls, a.p.form, None, part_coarse(a.p.part)), a.l)
            elif a.k == "str" and isinstance(a.p, StrD):
                k = a.p.kind
                if k == "expr" and a.p.p is not None:
                    d = StrD(k, Sym(a.p.p.cls, a.p.p.form, None, part_coarse(a.p.p.part)))
                elif k in ("schur", "listtext", "schurlist"):
                    d = StrD(k, part_coarse(a.p.p))
                else:
                    d = None
                a = Atom("str", d, a.l)
            out = av_join(out, frozenset([a]))
        return out

    def generalise_obj(self, o, depth):
        if o.kind == "tuple" and o.items is not None and len(o.items) <= 8:
            return o.rep(items=tuple(self.generalise(v, depth) for v in o.items), vn=None)
        if o.kind in ("list", "tuple", "set", "iter") and depth >= self.gen_depth:
            # keep only element information and emptiness
            return o.rep(items=None, elem=self.generalise(o.elems(), depth), len=None, vn=None)
        if o.kind == "inst" or o.kind == "frame":
            return o.rep(fields={k: (self.generalise(v, depth) if depth >= self.gen_depth else v) for k, v in o.fields.items()},
                         vn=None)
        return o.rep(vn=None)

    def analyse(self, key, fn, cb, cobjs, ccons, glob, node, grp):
        for e in self.stack:
            if e["key"] == key:
                self.depends(e["depth"])
                return e["summary"]
        p = self.providx.get(key)
        if p is not None:
            self.depends(p[1])
            return p[0]
        if len(self.stack) > 120:
            self.note("recursion", "too deep: " + fn.qual, node)
            return Summary(TOP, State({("a", i): o for i, o in enumerate(cobjs)}, ccons), {}, {})
        depth = len(self.stack)
        start = len(self.prov)
        ent = {"key": key, "node": fn.node, "grp": grp, "summary": None, "used": False, "depth": depth, "dep": depth,
               "cb": cb, "objs": cobjs}
        self.stack.append(ent)
        try:
            for it in range(12):
                ent["used"] = False
                s = self.run_body(fn, cb, cobjs, ccons, glob)
                if ent["summary"] is not None and s is not None:
                    s = self.join_summ(ent["summary"], s)
                if not ent["used"]:
                    ent["summary"] = s
                    break
                if s is None or (ent["summary"] is not None and s.same(ent["summary"])):
                    if s is not None:
                        ent["summary"] = s
                    break
                ent["summary"] = s
                self.drop_prov(start)
            else:
                self.note("recursion", "no fixpoint: " + fn.qual, node)
        finally:
            self.stack.pop()
        s = ent["summary"]
        if s is None:
            s = Summary(EMPTY, None, {}, {})
        if ent["dep"] >= depth:
            for k in self.prov[start:]:
                self.memo[k] = self.providx[k][0]
            self.drop_prov(start)
            self.memo[key] = s
        else:
            for k in self.prov[start:]:
                q = self.providx[k]
                if q[1] > ent["dep"]:
                    self.providx[k] = (q[0], ent["dep"])
            self.prov.append(key)
            self.providx[key] = (s, ent["dep"])
            if self.stack:
                self.stack[-1]["dep"] = min(self.stack[-1]["dep"], ent["dep"])
        return s

    def depends(self, d):
        """the running activations above depth d use the unfinished result of the one at d"""
        self.stack[d]["used"] = True
        for f in self.stack[d + 1:]:
            f["dep"] = min(f["dep"], d)

    def drop_prov(self, start):
        for k in self.prov[start:]:
            del self.providx[k]
        del self.prov[start:]

    def join_summ(self, a, b):
        if a.state is None:
            st, ret = b.state, b.ret
        elif b.state is None:
            st, ret = a.state, a.ret
        else:
            st, ret = state_join(a.state, b.state), av_join(a.ret, b.ret)
        r = dict(a.raises)
        for k, (e, s) in b.raises.items():
            if k in r:
                r[k] = (e, state_join(r[k][1], s))
            else:
                r[k] = (e, s)
        evs = dict(a.events)
        for k, e in b.events.items():
            evs.setdefault(k, e)
        return Summary(ret, st, r, evs)

    def run_body(self, fn, cb, cobjs, ccons, glob):
        self.nbodies += 1
        self.analysed.add((fn.mod.rel, fn.node._qual))
        st = State({("a", i): o for i, o in enumerate(cobjs)}, ccons)
        for s, o in glob:
            st.heap[s] = o
        frame = ("fr", fn.node._nid)
        st.heap[frame] = Obj("frame", ("frame", fn.closure), dict(cb))
        save = self.ctx
        c = Ctx(self, fn, frame, fn.mod)
        loc, used, nonl, glb = scope_info(fn.node)
        c.locals, c.nonlocals, c.globals = set(loc), nonl, glb
        self.ctx = c
        try:
            if isinstance(fn.node, ast.Lambda):
                try:
                    v = self.eval(fn.node.body, st)
                    c.returns.append((v, st, fn.node))
                except Dead:
                    pass
            else:
                end = self.exec_block(fn.node.body, st)
                if end is not None:
                    c.returns.append((self.nil(None), end, None))
            isgen = c.yields is not None
            ret, out = EMPTY, None
            for v, s, rn in c.returns:
                if s.pc:
                    v = av_add_labels(v, frozenset(x for x in s.pc if not x.startswith(("fig:", "nofig:"))))
                ret = av_join(ret, v)
                out = state_join(out, s)
            if isgen and out is not None:
                self_node = fn.node
                ret = self.new_list(out, self_node, None, c.yields, None, "gen", kind="iter")
            raises = {}
            for e, s in c.raises:
                k = e.key()
                if k in raises:
                    raises[k] = (raises[k][0], state_join(raises[k][1], s))
                else:
                    raises[k] = (e, s)
        finally:
            self.ctx = save
        if c.dstores and self.initst is None:
            self.cold_caches(c, [out] + [s for _, s in raises.values()], cobjs, glob)
        if out is not None:
            out = self.trim(out, ret, cobjs, frame)
        raises = {k: (e, self.trim(s, EMPTY, cobjs, frame)) for k, (e, s) in raises.items()}
        return Summary(ret, out, raises, c.events)

    def cold_caches(self, c, states, cobjs, glob):
        """a long-lived dictionary this activation both looks up and fills is a cache: the next
        activation is analysed with the cache as it was (that a hit equals a recomputation is what the
        key analysis decides); one that is only filled keeps unknown contents"""
        g = dict(glob)
        for s in c.dstores:
            if s in self.base:
                entry = g.get(s, self.base[s])
            elif s[0] == "a" and any(str(f).startswith(("recv", "cached:", "global:", "kept:")) for f in cobjs[s[1]].flags):
                entry = cobjs[s[1]]
            else:
                continue
            if entry.kind != "dict":
                continue
            for st in states:
                if st is None or s not in st.heap:
                    continue
                if s in c.dloads:
                    st.heap[s] = entry
                else:
                    st.heap[s] = entry.rep(fields={}, elem=TOP, keyl=TOP, len=None, summary=True)

    def trim(self, st, ret, cobjs, frame):
        """garbage-collect: keep what is reachable from the result, the arguments and globals"""
        keep = {}
        seen = set()
        work = []

        def see(v):
            for a in v:
                visit(a)

        def visit(a):
            if a.k == "ref":
                if a.p not in seen:
                    seen.add(a.p)
                    work.append(a.p)
            elif a.k == "fn":
                f = a.p
                for d in f.defaults:
                    see(d)
                s = f.closure
                while s is not None and s not in seen:
                    seen.add(s)
                    work.append(s)
                    o = self.get(st, s)
                    s = o.cls[1] if (o is not None and isinstance(o.cls, tuple) and o.cls[0] == "frame") else None
            elif a.k == "bm":
                visit(a.p[0])
                visit(a.p[1])
            elif a.k == "memo":
                visit(a.p.inner)
            elif a.k in ("static", "classm", "prop"):
                visit(a.p)
            elif a.k == "partial":
                visit(a.p[0])
                for x in a.p[1]:
                    see(x)
                for _, x in a.p[2]:
                    see(x)
            elif a.k in ("super", "meth"):
                visit(a.p[0])
            elif a.k == "deco":
                for x in a.p[1:]:
                    if isinstance(x, Atom):
                        visit(x)
        for i in range(len(cobjs)):
            seen.add(("a", i))
            work.append(("a", i))
        for s, o in st.heap.items():
            if s in self.base or (self.initst is not None and s != frame):
                seen.add(s)
                work.append(s)
        see(ret)
        while work:
            s = work.pop()
            o = st.heap.get(s)
            if o is None:
                continue
            keep[s] = o
            for v in o.fields.values():
                see(v)
            if o.items is not None:
                for v in o.items:
                    see(v)
            see(o.elem)
            see(o.keyl)
        # drop constraints on symbols that no longer occur
        acc = []
        lins_in(ret, acc)
        for o in keep.values():
            if o.len is not None:
                lins_in(o.len, acc)
            for v in o.fields.values():
                lins_in(v, acc)
            if o.items is not None:
                for v in o.items:
                    lins_in(v, acc)
            lins_in(o.elem, acc)
        live = set(acc)
        live |= {s for e in st.cons.ge for s in e.syms() if isinstance(s, str) or s[0] == "v"}
        cons = self.project(st.cons, live)
        return State(keep, cons, st.exact, st.pc)

    def project(self, cons, live):
        """existentially quantify the other symbols (Fourier-Motzkin, bounded)"""
        ge = set(cons.ge)
        dead = {s for e in ge for s in e.syms()} - live
        from .lin import norm
        for s in sorted(dead, key=repr):
            pos, neg, rest = [], [], set()
            for e in ge:
                k = dict(e.t).get(s, 0)
                if k > 0:
                    pos.append((k, e))
                elif k < 0:
                    neg.append((-k, e))
                else:
                    rest.add(e)
            if len(pos) * len(neg) <= 12:
                for kp, p in pos:
                    for kn, q in neg:
                        f = norm(p.scale(kn) + q.scale(kp))
                        if not f.is_const():
                            rest.add(f)
            ge = rest
        ne = [e for e in cons.ne if e.syms() <= live]
        return Cons(ge, ne)

    def replay(self, summ, fn, order, idx, symmap, frames, node, st, globsites=frozenset()):
        c = self.ctx
        coll = set()
        rev = {("a", i): s for s, i in idx.items()}
        base = self.base
        init = self.initst is not None

        def fs(s):
            if s is None:
                return None
            if s in rev:
                return rev[s]
            if s in base or s in globsites or s[0] in ("module", "class"):
                return s
            return wrap_site(self.nid(node), s, coll)
        revsym = {v: s for s, v in symmap.items()}

        newsyms = set()

        def fl(s):
            if isinstance(s, str):
                return Lin.sym(s)
            if s in revsym:
                return Lin.sym(revsym[s])
            if s[0] == "v":
                return None
            w = wrap_site(self.nid(node), s, coll)
            newsyms.add(w)
            return Lin.sym(w)
        ren = Renamer(fs, fl)
        # events
        here = c.loc(node)
        barrier = self.barriers.get(fn.node) if self.barriers else None
        for k, e in summ.events.items():
            if barrier is not None and not barrier(e):
                continue
            if len(e.chain) > 14:
                continue
            ne = Ev(e.kind, e.loc, e.data, ((here[0], here[1], fn.qual),) + e.chain)
            kk = ne.key()
            old = c.events.get(kk)
            if old is None or len(old.chain) > len(ne.chain):
                c.events[kk] = ne
        # exceptions
        for k, (e, s) in summ.raises.items():
            s2 = st.copy()
            self.apply_delta(s2, s, ren, rev, frames, coll, globsites)
            c.raises.append((Exc(e.name, e.kind, e.loc, e.msg, ren.av(e.av), e.partial), s2))
        if summ.state is None:
            raise Dead()
        # renew symbols created by an earlier execution of this call
        stale = set()
        probe = Renamer(lambda s: s, fl)
        probe.cons(summ.state.cons)
        for o in summ.state.heap.values():
            probe.obj(o)
        probe.av(summ.ret)
        stale = newsyms & c.created
        if stale:
            self.forget_many(st, stale)
        c.created |= newsyms
        self.apply_delta(st, summ.state, ren, rev, frames, coll, globsites)
        return ren.av(summ.ret)

    barriers = {}

    def apply_delta(self, st, cs, ren, rev, frames, coll, globsites=frozenset()):
        merged = []
        for s, o in cs.heap.items():
            if s in rev:
                t = rev[s]
                if o.kind == "frame":
                    cur = self.get(st, t)
                    f = dict(cur.fields)
                    n = ren.obj(o)
                    f.update(n.fields)
                    st.heap[t] = cur.rep(fields=f)
                else:
                    st.heap[t] = ren.obj(o)
            elif s in self.base or s in globsites or s[0] in ("module", "class"):
                st.heap[s] = ren.obj(o)
            else:
                t = ren.fs(s)
                n = ren.obj(o)
                old = self.get(st, t)
                if t in coll and old is None:
                    old = None
                    n = n.rep(summary=True)
                if old is not None:
                    if old.kind == "frame" and n.kind == "frame":
                        n = obj_join(old, n).rep(summary=True)
                    else:
                        n = obj_join(old, n.rep(summary=True)).rep(summary=True)
                st.heap[t] = n
        c2 = ren.cons(cs.cons)
        ge = c2.ge - st.cons.ge
        ne = c2.ne - st.cons.ne
        if ge or ne:
            st.cons = Cons(st.cons.ge | ge, st.cons.ne | ne)
        st.exact = st.exact and cs.exact
        if cs.pc:
            self.figs_after(st, cs.pc)

    def figs_after(self, st, pc):
        """figures opened (fig:) and closed (nofig:) by a call that just returned"""
        new = frozenset(x for x in pc if x.startswith(("fig:", "nofig:")))
        if new:
            gone = {x[6:] for x in new if x.startswith("nofig:")}
            st.pc = frozenset(x for x in st.pc if not (x.startswith("fig:") and (x[4:] in gone or "*" in gone))) | new

    def figs_closed(self, st, locs):
        """the figures made at the given places are closed, or out of sight; None: all"""
        st.pc = frozenset(x for x in st.pc if not (x.startswith("fig:") and (locs is None or x[4:] in locs))) | frozenset(
            ["nofig:*"] if locs is None else ["nofig:" + l for l in locs])

    def figs_in(self, vs):
        return {a.p[1] for v in vs for a in (v[1] if isinstance(v, tuple) else v) if a.k == "extobj" and a.p[0] == "figure"}

    def may_fail(self, st, node, what):
        """an effect on the outside world that can fail: the failing path goes on as an exception"""
        self.ctx.raises.append((Exc("OSError", "ext", self.ctx.loc(node), what, TOP, True), st.copy()))


def site_in(x, site):
    if x == site:
        return True
    if isinstance(x, Atom):
        return site_in(x.p, site)
    if isinstance(x, (tuple, frozenset)):
        return any(site_in(y, site) for y in x)
    return False


def cname(c):
    return c.name if isinstance(c, ClassObj) else str(c)


OPNAMES = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv", "Mod": "mod",
           "Pow": "pow", "LShift": "lshift", "RShift": "rshift", "BitOr": "or", "BitAnd": "and", "BitXor": "xor",
           "MatMult": "matmul"}
OPSYM = {"add": "+", "sub": "-", "mul": "*", "truediv": "/", "floordiv": "//", "mod": "%", "pow": "**"}
EXC_PARENT = {"ValueError": "Exception", "TypeError": "Exception", "IndexError": "LookupError", "KeyError": "LookupError",
              "LookupError": "Exception", "AttributeError": "Exception", "NameError": "Exception",
              "UnboundLocalError": "NameError", "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception",
              "OverflowError": "ArithmeticError", "AssertionError": "Exception", "RuntimeError": "Exception",
              "NotImplementedError": "RuntimeError", "RecursionError": "RuntimeError", "StopIteration": "Exception",
              "ImportError": "Exception", "ModuleNotFoundError": "ImportError", "OSError": "Exception",
              "FileNotFoundError": "OSError", "SyntaxError": "Exception", "UnicodeDecodeError": "ValueError",
              "SympifyError": "ValueError"}
