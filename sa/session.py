"""Drives the interpreter: builds abstract objects and calls public entry points."""
import ast
from .dom import *
from .lin import Lin, Cons
from .load import Program, AnalysisBroken
from .interp import Interp, Ctx, Obj, Dead, Exc, Ev


class _FakeMod:
    def __init__(self, like):
        self.name = like.name
        self.rel = "<entry>"
        self.tree = like.tree
        self.path = ""


class Outcome:
    """result of one abstract call"""

    def __init__(self, ret, state, raises, events):
        self.ret = ret          # AV ( empty: no normal return )
        self.st = state         # None: no normal return
        self.raises = raises    # list of (Exc, State)
        self.events = events    # list of Ev

    @property
    def normal(self):
        return self.st is not None


class Session:
    """one abstract execution context for driving calls"""
    _nid = 10 ** 7

    def __init__(self, interp, cons=None):
        self.I = interp
        mod = interp.prog.modules["schubertpy"]
        self.mod = _FakeMod(mod)
        self.st = State({}, cons or Cons())
        self.frame = ("fr", "entry")
        self.st.heap[self.frame] = Obj("frame", ("frame", None), {})
        self.ctx = Ctx(interp, None, self.frame, self.mod)
        interp.ctx = self.ctx

    def node(self):
        Session._nid += 1
        n = ast.Call(func=ast.Name(id="entry", ctx=ast.Load()), args=[], keywords=[])
        n._nid = self.local_nid()
        n.lineno = 0
        return n

    def local_nid(self):
        self.k = getattr(self, "k", 0) + 1
        return 10 ** 7 + self.k

    def cls(self, mod, name):
        v = self.I.module_attr(mod, name)
        if v is None:
            raise AnalysisBroken("%s.%s not found" % (mod, name))
        return v

    def do(self, thunk):
        """run thunk(node) in the current state; returns Outcome and advances the state if normal"""
        self.I.ctx = self.ctx
        n = self.node()
        self.ctx.raises = []
        self.ctx.events = {}
        before = self.st.copy()
        self.st0 = before          # state before the last call
        try:
            r = thunk(n)
            out = Outcome(r, self.st, self.ctx.raises, list(self.ctx.events.values()))
        except Dead:
            out = Outcome(EMPTY, None, self.ctx.raises, list(self.ctx.events.values()))
            self.st = before
        return out

    def call(self, f, args=(), kwargs=None):
        return self.do(lambda n: self.I.call(f, list(args), dict(kwargs or {}), n, self.st))

    def method(self, ob, name, args=(), kwargs=None):
        def run(n):
            m = self.I.getattr(ob, name, n, self.st)
            return self.I.call(m, list(args), dict(kwargs or {}), n, self.st)
        return self.do(run)

    def op(self, name, a, b):
        return self.do(lambda n: self.I.binop(getattr(ast, name)(), a, b, n, self.st))

    # ---- values
    def obj(self, a):
        for x in a:
            if x.k == "ref":
                return self.I.get(self.st, x.p)

    def lst(self, items=None, elem=EMPTY, ln=None, flags=(), vn=None, kind="list"):
        n = self.node()
        r = self.I.new_list(self.st, n, items, elem, ln, vn=vn, kind=kind)
        for x in r:
            o = self.I.get(self.st, x.p)
            self.st.heap[x.p] = o.rep(flags=o.flags | frozenset(flags))
        return r

    def flag(self, v, flags):
        """mark everything reachable from v"""
        self.I.ctx = self.ctx
        self.I.mark_reach(self.st, [v], frozenset(flags))


def build(repo=None):
    import sys
    sys.setrecursionlimit(60000)
    p = Program(repo)
    i = Interp(p)
    i.load_all()
    return i
