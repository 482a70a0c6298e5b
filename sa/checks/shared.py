"""What operations do to storage that outlives a call (shared by C02 and C04)."""
import ast
from .common import *


def store_name(fl):
    """the longest-lived storage a flag set names"""
    for p in ("global:", "cached:", "recv"):
        for x in sorted(map(str, fl)):
            if x.startswith(p):
                return x
    return None


def public_attr_reads(prog):
    """attribute names read anywhere in the package (outside pure stores)"""
    out = set()
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                out.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("getattr", "hasattr") and len(n.args) > 1 \
                    and isinstance(n.args[1], ast.Constant):
                out.add(n.args[1].value)
    return out


MUTATING = {"append", "extend", "insert", "add", "update", "setdefault", "remove", "clear", "discard", "sort", "reverse", "appendleft"}


def write_only(prog, name):
    """module/class/closure variable that is only ever written into, never looked at"""
    name = name.split(".")[-1].split(" ")[-1]
    reads = False
    for m in prog.modules.values():
        par = {}
        for n in ast.walk(m.tree):
            for c in ast.iter_child_nodes(n):
                par[c] = n
        for n in ast.walk(m.tree):
            if (isinstance(n, ast.Name) and n.id == name or isinstance(n, ast.Attribute) and n.attr == name) \
                    and isinstance(n.ctx, ast.Load):
                p = par.get(n)
                if isinstance(p, ast.Attribute) and p.attr in MUTATING and isinstance(par.get(p), ast.Call) \
                        and isinstance(par.get(par[p]), ast.Expr):
                    continue
                if isinstance(p, ast.Subscript) and p.value is n and isinstance(p.ctx, ast.Store) \
                        and isinstance(par.get(p), (ast.Assign, ast.AugAssign)):
                    continue
                reads = True
    return not reads


def in_with(prog, loc):
    """the construct lies inside a with-block guarding it with a lock"""
    rel, line = loc[0], loc[1]
    for m in prog.modules.values():
        if m.rel != rel:
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.With, ast.AsyncWith)) and n.lineno <= line <= (n.end_lineno or n.lineno):
                for it in n.items:
                    t = ast.unparse(it.context_expr).lower()
                    if "lock" in t or "mutex" in t or "sem" in t:
                        return True
    return False


def in_try(prog, loc, names):
    """the construct lies in the body of a try statement whose handlers catch one of the named exceptions"""
    for m in prog.modules.values():
        if m.rel != loc[0]:
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Try) and n.body and n.body[0].lineno <= loc[1] <= (n.body[-1].end_lineno or 0):
                for h in n.handlers:
                    t = "Exception" if h.type is None else ast.unparse(h.type)
                    if any(x in t for x in names):
                        return True
    return False


def drop_sites(prog, name):
    """places that remove entries of the dictionary of this name"""
    name = name.split(".")[-1].split(" ")[-1]
    out = []
    is_it = lambda x: isinstance(x, ast.Name) and x.id == name or isinstance(x, ast.Attribute) and x.attr == name
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("clear", "pop", "popitem") and is_it(n.func.value):
                out.append((m.rel, n.lineno, n.func.attr))
            elif isinstance(n, ast.Delete):
                out += [(m.rel, n.lineno, "del") for x in n.targets if isinstance(x, ast.Subscript) and is_it(x.value)]
    return out


def thread_local(prog, name):
    """the storage is a threading.local"""
    name = name.split(".")[-1].split(" ")[-1]
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                f = ast.unparse(n.value.func)
                if f in ("threading.local", "local", "_local", "contextvars.ContextVar", "ContextVar"):
                    for t in n.targets:
                        if getattr(t, "id", getattr(t, "attr", None)) == name:
                            return True
    return False


def guarded(prog, ev):
    return any(in_with(prog, c) for c in [ev.loc] + [x for x in ev.chain if x])


class Modes:
    """state that some operations set and others look at"""

    def __init__(self):
        self.sets = {}      # (store, name) -> {value: entry}
        self.per = {}       # (store, name) -> {entry: values}
        self.mreads = {}    # name -> [(entry, event, function)]
        self.reads = {}     # name -> {entry: event}

    @staticmethod
    def of(e, d):
        """(store, name) of a read"""
        return ("recv", d[0]) if isinstance(d[1], frozenset) else ("shared", d[1])

    def see(self, c):
        for e in c.out.events:
            if e.kind == "aset":
                nm = store_name(e.data[1])
                if nm is None:
                    continue
                k = ("recv" if nm == "recv" else "shared", e.data[0])
                for x in e.data[4]:
                    self.sets.setdefault(k, {}).setdefault(x, (c.entry, e))
                    self.per.setdefault(k, {}).setdefault(c.entry, set()).add(x)
            elif e.kind == "mread":
                d, qual = e.data
                if not isinstance(d[1], frozenset) or "recv" in d[1]:
                    self.mreads.setdefault(self.of(e, d), []).append((c.entry, e, qual))
            elif e.kind in ("read", "gread"):
                d = e.data
                if not isinstance(d[1], frozenset) or "recv" in d[1]:
                    self.reads.setdefault(self.of(e, d), {}).setdefault(c.entry, e)

    def judge(self, I, log):
        log.ok("R7")
        for k, vals in sorted(self.sets.items()):
            known = {x: w for x, w in vals.items() if x != "?"}
            if len(known) < 2 or k[0] == "shared" and thread_local(I.prog, k[1]):
                continue
            how = " and to ".join(sorted(known)[:2])
            for entry, e, qual in self.mreads.get(k, ())[:1]:
                log.viol("R7", entry, where(e), "%s, whose results are remembered, reads %s, which operations set to %s" % (
                    qual, k[1], how), chain_of(e))
            if any(len(v) > 1 for v in self.per[k].values()):
                continue        # set and reset by the same operation
            for entry, e in sorted(self.reads.get(k, {}).items()):
                if entry not in self.per[k]:
                    log.viol("R7", entry, where(e), "%s is read without having been set by this operation; others set it to %s" % (
                        k[1], how), chain_of(e))
                    break

    def races(self, I, log, rule):
        """the same for concurrent calls: whatever one sets, another may read"""
        log.ok(rule)
        for k, vals in sorted(self.sets.items()):
            known = {x: w for x, w in vals.items() if x != "?"}
            if len(known) < 2 or k[0] == "shared" and thread_local(I.prog, k[1]) or k not in self.reads:
                continue
            entry, e = sorted(known.items())[0][1]
            if guarded(I.prog, e):
                log.und(rule, entry, "%s is written under a lock" % k[1])
                continue
            log.viol(rule, entry, where(e), "%s is shared by concurrent calls, and operations set it to %s" % (
                k[1], " and to ".join(sorted(known)[:2])), chain_of(e))


# ------------------------------------------------------------- relabelling
class Relabel:
    """analyse chosen functions with their own parameters as the inputs.  On entry every input label
    of an argument is replaced by one naming the parameter; on return it is translated back."""

    def __init__(self, I):
        self.I = I
        self.maps = {}

    def install(self, nodes):
        for n in nodes:
            self.I.hooks[n] = self.enter
            self.I.post[n] = self.leave
        self.I.lossy = True
        self.I.memo.clear()
        self.I.nkeys.clear()

    def remove(self, nodes):
        self.I.lossy = False
        for n in nodes:
            self.I.hooks.pop(n, None)
            self.I.post.pop(n, None)
        self.I.memo.clear()
        self.I.nkeys.clear()

    def walk(self, st, v, f, depth=5, seen=None):
        """v with f applied to the labels of every atom in it"""
        I = self.I
        seen = set() if seen is None else seen
        out = set()
        for a in v:
            if a.k == "ref" and depth and a.p not in seen:
                o = I.get(st, a.p)
                if o is not None and o.kind in ("list", "tuple", "dict", "set", "iter", "inst") and a.p not in I.base:
                    seen.add(a.p)
                    new = o.rep(fields={k: self.walk(st, x, (lambda l, k=k: f(l, k)) if o.kind == "inst" else f, depth - 1, seen)
                                        for k, x in o.fields.items()},
                                items=None if o.items is None else tuple(self.walk(st, x, f, depth - 1, seen) for x in o.items),
                                elem=self.walk(st, o.elem, f, depth - 1, seen))
                    if new != o:
                        st.heap[a.p] = new
            out.add(a.with_l(f(a.l)))
        return frozenset(out)

    def enter(self, I, fn, bound, node, st):
        mp = {}
        sites = []

        def put(v, label):
            seen = set()
            objs = [I.get(st, a.p) if a.k == "ref" else None for a in v]
            if objs and all(o is not None and o.kind in ("list", "tuple") and o.items == () for o in objs):
                # nothing in it to depend on
                return frozenset(a.with_l(frozenset(x for x in a.l if not (isinstance(x, str) and x.startswith("P:")))) for a in v)

            def f(l, field=None):
                lab = label if field is None else "%s.%s" % (label, field)
                mp[lab] = mp.get(lab, EMPTY) | frozenset(x for x in l if isinstance(x, str) and x.startswith("P:"))
                return frozenset(x for x in l if not (isinstance(x, str) and x.startswith(("P:", "lossy:")))) | {lab}
            r = self.walk(st, v, f, seen=seen)
            sites.extend(seen)
            return r
        va = fn.node.args.vararg
        for k, v in sorted(bound.items()):
            if va is not None and k == va.arg:
                for a in v:
                    o = I.get(st, a.p) if a.k == "ref" else None
                    if o is not None and o.items is not None:
                        st.heap[a.p] = o.rep(items=tuple(put(x, "P:%s[%d]" % (k, i)) for i, x in enumerate(o.items)))
                    else:
                        bound[k] = put(v, "P:" + k)
            else:
                bound[k] = put(v, "P:" + k)
        self.maps[id(bound)] = (mp, sites)
        return None

    def leave(self, I, fn, bound, r, node, st):
        mp, sites = self.maps.pop(id(bound), ({}, ()))

        def back(l, field=None):
            out = set()
            for x in l:
                if x in mp:
                    out |= mp[x]
                elif isinstance(x, str) and x.startswith("lossy:") and "P:" + x[6:] in mp:
                    continue
                else:
                    out.add(x)
            return frozenset(out)
        seen = set()
        r = self.walk(st, r, back, seen=seen)
        left = frozenset(Atom("ref", s) for s in sites if s not in seen and s in st.heap)
        self.walk(st, left, back, depth=1)
        return r
