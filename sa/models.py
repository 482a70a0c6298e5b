"""Models of Python's built-in types and functions and of the external
libraries the package uses (sympy, functools, ast, numpy, pandas, matplotlib)."""
import ast
import builtins as _b
from fractions import Fraction
from .lin import Lin, Cons
from .dom import *
from .exact import Exact, known, renamed

SYMPY_ALL = Sym.ALL
A = Sym.ALL
BUILTIN_TYPES = {"int", "str", "list", "tuple", "set", "frozenset", "dict", "bool", "float", "object", "complex", "bytes",
                 "type", "range"}
PURE = {"print", "open", "len"}


def no_s(s):
    """the text of a class or expression without its S"""
    if s.kind != "expr" or s.p is None:
        return StrD("schurlist", s.p)
    if s.p.cls and not s.p.cls <= {"schur"} and s.p.cls != A:
        return StrD("exprlist", s.p)
    return StrD("schurlist", s.p.part)


def name_range(x):
    """the names sympy.symbols makes of one name, which may hold one range of numbers or letters"""
    import re
    m = re.fullmatch(r"([^:()]*?)\(?(\d*):(\d+)\)?([^:()]*)", x)
    if m:
        return [m.group(1) + str(i) + m.group(4) for i in range(int(m.group(2) or 0), int(m.group(3)))]
    m = re.fullmatch(r"([^:()]*?)\(?([a-zA-Z]):([a-zA-Z])\)?([^:()]*)", x)
    if m:
        return [m.group(1) + chr(i) + m.group(4) for i in range(ord(m.group(2)), ord(m.group(3)) + 1)]
    return [x]
EXC_NAMES = {n for n in dir(_b) if isinstance(getattr(_b, n), type) and issubclass(getattr(_b, n), BaseException)}

SYMPY_NUM = {"Number", "Integer", "Rational", "Float", "Zero", "One", "NumberSymbol", "RealNumber", "Half"}
SYMPY_EXPR = {"Expr", "Basic", "AtomicExpr", "Atom"}
IO_CALLS = {
    "builtins.print": "print", "builtins.open": "open", "builtins.input": "input",
    "sys.stdout.write": "stdout", "sys.stderr.write": "stderr", "sys.stdout.writelines": "stdout", "sys.stdout.flush": "stdout",
    "warnings.warn": "warning", "traceback.print_exc": "stderr", "pprint.pprint": "print",
    "os.environ.setdefault": "environment", "os.putenv": "environment", "os.unsetenv": "environment",
    "os.environ.update": "environment", "os.environ.pop": "environment", "os.chdir": "process", "os.umask": "process",
    "sys.setrecursionlimit": "interpreter setting", "sys.setswitchinterval": "interpreter setting",
    "sys.settrace": "interpreter setting", "sys.setprofile": "interpreter setting", "sys.set_int_max_str_digits": "interpreter setting",
    "sys.exit": "process", "os._exit": "process", "os.abort": "process", "os.kill": "process", "os.system": "process",
    "builtins.breakpoint": "debugger", "pdb.set_trace": "debugger", "builtins.exit": "process", "builtins.quit": "process",
    "warnings.filterwarnings": "interpreter setting", "warnings.simplefilter": "interpreter setting",
    "random.seed": "interpreter setting", "numpy.random.seed": "interpreter setting", "numpy.seterr": "library setting",
    "numpy.set_printoptions": "library setting", "sympy.init_printing": "library setting", "sympy.init_session": "library setting",
    "pandas.set_option": "library setting", "matplotlib.use": "library setting", "matplotlib.rcParams.update": "library setting",
    "matplotlib.pyplot.rcParams.update": "library setting", "matplotlib.pyplot.rc": "library setting",
    "matplotlib.pyplot.style.use": "library setting", "matplotlib.style.use": "library setting",
    "matplotlib.pyplot.switch_backend": "library setting", "matplotlib.pyplot.ion": "library setting",
    "matplotlib.pyplot.ioff": "library setting", "matplotlib.pyplot.show": "window", "matplotlib.interactive": "library setting",
    "gc.disable": "interpreter setting", "gc.collect": "interpreter setting", "gc.set_threshold": "interpreter setting",
    "atexit.register": "process", "locale.setlocale": "process", "faulthandler.enable": "process",
    "decimal.setcontext": "interpreter setting", "threading.stack_size": "interpreter setting",
    "logging.basicConfig": "log", "logging.warning": "log", "logging.error": "log", "logging.critical": "log",
    "logging.exception": "log", "pickle.dump": "file", "json.dump": "file", "numpy.save": "file", "numpy.savetxt": "file",
    "time.sleep": "sleep",
}
IO_PREFIX = {"subprocess.": "process", "socket.": "network", "urllib.request.": "network", "http.client.": "network",
             "requests.": "network", "shutil.": "file", "tempfile.": "file", "signal.": "process", "multiprocessing.": "process"}
for _n in "remove unlink mkdir makedirs rename replace rmdir removedirs truncate write link symlink chmod chown utime mkfifo".split():
    IO_CALLS["os." + _n] = "file"
SETTINGS = ("os.environ", "matplotlib.rcParams", "matplotlib.pyplot.rcParams", "sys.modules", "sys.path", "sys.meta_path")
NONDET = {"random.": "random numbers", "time.": "the clock", "datetime.": "the clock", "uuid.": "random ids",
          "secrets.": "random numbers", "os.environ": "the environment", "os.getenv": "the environment",
          "os.getpid": "the process id", "os.urandom": "random numbers", "numpy.random.": "random numbers",
          "builtins.id": "object addresses", "builtins.hash": "hash values", "os.listdir": "directory order",
          "threading.get_ident": "the thread id", "sys.getrefcount": "reference counts",
          "builtins.input": "user input", "platform.": "the platform", "os.cpu_count": "the machine"}


def has_u(x):
    """does a value number rest on a creation point"""
    if isinstance(x, (tuple, frozenset)):
        return isinstance(x, tuple) and len(x) == 3 and x[0] == "u" or any(has_u(y) for y in x)
    return False


def lin_of(a):
    return a.p if (a.k == "int" and isinstance(a.p, Lin)) else None


def range_of(o):
    """(lo, hi, step) of a range object; unknown components are None"""
    v = o.vn
    if not (isinstance(v, tuple) and len(v) == 3):
        return None, None, None
    lo, hi, step = v
    return (lo if isinstance(lo, Lin) else None, hi if isinstance(hi, Lin) else None,
            step if isinstance(step, int) else None)


class Models(Exact):
    EXT_EFFECTS = (("pathlib.", ("write_text", "write_bytes", "mkdir", "unlink", "touch", "rename", "replace", "rmdir", "open"), "file"),
                   ("logging.", ("warning", "error", "critical", "exception", "log"), "log"),
                   ("pandas.", ("to_csv", "to_pickle", "to_excel", "to_json", "to_html", "to_latex", "to_parquet"), "file"),
                   ("threading.", ("start",), "thread"))

    KIND_ATTRS = {
        "is_Add": (frozenset(["add"]), A - {"add"}),
        "is_Mul": (frozenset(["mul"]), A - {"mul"}),
        "is_Pow": (frozenset(["pow"]), A - {"pow"}),
        "is_Symbol": (frozenset(["schur", "q", "var"]), A - {"schur", "q", "var"}),
        "is_symbol": (frozenset(["schur", "q", "var"]), A - {"schur", "q", "var"}),
        "is_Number": (frozenset(["num"]), A - {"num"}),
        "is_number": (frozenset(["num", "add", "mul", "pow", "other"]), A - {"num"}),
        "is_Atom": (frozenset(["num", "schur", "q", "var"]), frozenset(["add", "mul", "pow", "other"])),
        "is_Integer": (frozenset(["num"]), A),
        "is_Rational": (frozenset(["num"]), A),
        "is_integer": (A, A), "is_zero": (frozenset(["num", "add", "mul", "pow", "other"]), A), "is_commutative": (A, frozenset()),
    }

    def __init__(self, interp):
        self.I = interp
        self.bcache = {}
        self.figs = 0

    # ------------------------------------------------------------------ builtins
    def builtin(self, name):
        if name == "NotImplemented":
            return mk("nimpl")
        if name == "__name__":
            return AStr(None)
        if hasattr(_b, name):
            return mk("ext", "builtins." + name)
        return None

    def star_names(self, base):
        if base == "typing":
            return ["List", "Tuple", "Union", "Callable", "Any", "Optional", "Set", "Dict", "Iterable", "Iterator",
                    "Sequence", "TypeVar", "Generic", "Type", "cast", "Literal", "Protocol", "NamedTuple"]
        return []

    # ------------------------------------------------------------------ sequences
    def known_items(self, v, st):
        """list of AVs if v is exactly one sequence with known items"""
        if len(v) != 1:
            return None
        a, = v
        if a.k == "ref":
            o = self.I.get(st, a.p)
            if o.kind in ("list", "tuple", "set", "iter") and o.items is not None and not o.summary:
                return list(o.items)
            if o.kind in ("list", "tuple", "iter") and o.len is not None and o.len == Lin(0):
                return []
            if o.kind == "dict" and not o.elem and not o.summary and o.len is not None:
                return [self.const_av(k[1]) for k in o.fields]
            if o.kind == "ditems" and o.items is not None and not o.summary:
                return list(o.items)
        if a.k == "str" and isinstance(a.p, str) and len(a.p) <= 8:
            return [AStr(c) for c in a.p]
        return None

    def const_av(self, c):
        if c is None:
            return NONE
        if isinstance(c, bool):
            return ABool(c)
        if isinstance(c, int):
            return AInt(c)
        return AStr(c)

    def iter_elem(self, v, node, st):
        out = EMPTY
        for a in v:
            if a.k == "ref":
                o = self.I.get(st, a.p)
                if o.kind == "dict":
                    e = o.keyl
                elif o.kind == "inst":
                    e = TOP
                elif o.kind == "range":
                    e = AInt(None)
                else:
                    e = o.elems()
                    if o.kind in ("set", "frozenset") or o.ordt:
                        pass
                out = av_join(out, e)
            elif a.k == "str":
                out = av_join(out, AStr(None))
            elif a.k == "sym":
                pass
            elif a.k in ("top", "extobj"):
                out = av_join(out, TOP)
        return out

    def unordered(self, v, st):
        for a in v:
            if a.k == "ref":
                o = self.I.get(st, a.p)
                if o.kind in ("set", "frozenset") or o.ordt:
                    return True
        return False

    def iter_step(self, it, n, st, tag=0):
        """one abstract iteration over it: (body state, exit state, element, order label)"""
        elem = EMPTY
        empty_possible = False
        nonempty_possible = False
        ordl = None
        bad = []
        body = st.copy()
        for a in it:
            if a.k == "ref":
                o = self.I.get(st, a.p)
                if o.kind == "range":
                    lo, hi, step = range_of(o)
                    e, b, x = self.range_step(lo, hi, step, n, body, tag)
                    if e is not None:
                        elem = av_join(elem, e)
                        nonempty_possible = True
                        if len(it) == 1:
                            body = b
                    empty_possible = True
                    continue
                if o.kind == "inst":
                    f = self.I.class_lookup(o.cls, "__iter__", st)
                    if f is None and self.I.class_lookup(o.cls, "__getitem__", st) is None:
                        bad.append(a)
                        continue
                    elem = av_join(elem, TOP)
                    empty_possible = nonempty_possible = True
                    continue
                e = o.keyl if o.kind == "dict" and o.kind != "ditems" else o.elems()
                if o.kind in ("set", "frozenset") or o.ordt:
                    ordl = "ord"
                if o.len is not None and o.len == Lin(0):
                    empty_possible = True
                    continue
                if not e:
                    empty_possible = True
                    continue
                elem = av_join(elem, e)
                nonempty_possible = True
                empty_possible = True
            elif a.k == "str":
                elem = av_join(elem, AStr(None))
                nonempty_possible = empty_possible = True
            elif a.k in ("top", "extobj"):
                elem = av_join(elem, TOP)
                nonempty_possible = empty_possible = True
            else:
                bad.append(a)
        if bad:
            self.I.synth(st, n, "TypeError", "%s object is not iterable" % self.I.tname(bad[0], st), partial=len(bad) < len(it))
        if ordl:
            elem = av_add_labels(elem, frozenset(["ordelem"]))
        labs = frozenset(x for x in av_labels(it))
        if labs:
            elem = av_add_labels(elem, labs)
        ex = st.copy()
        if nonempty_possible:
            body.exact = False
            ex.exact = False
            if len(it) == 1:
                a, = it
                if a.k == "ref":
                    o = self.I.get(body, a.p)
                    if o.len is not None:
                        c = body.cons.add_ge(o.len - 1)
                        if c is None:
                            return None, ex, elem, ordl
                        body.cons = c
            return body, ex, elem, ordl
        return None, ex, elem, ordl

    def range_step(self, lo, hi, step, n, st, tag):
        if step == 1 or step == -1:
            s = self.I.fresh(st, n, "it%s" % tag)
            x = Lin.sym(s)
            cons = st.cons
            if step == 1:
                cons = cons.add_ge(x - lo) if lo is not None else cons
                cons = cons and (cons.add_ge(hi - x - 1) if hi is not None else cons)
            else:
                cons = cons.add_ge(lo - x) if lo is not None else cons
                cons = cons and (cons.add_ge(x - hi - 1) if hi is not None else cons)
            if cons is None:
                return None, None, None
            st.cons = cons
            return AInt(x), st, None
        return AInt(None), st, None

    def av_len(self, v, st):
        r = None
        for a in v:
            l = None
            if a.k == "ref":
                o = self.I.get(st, a.p)
                if o.kind == "range":
                    lo, hi, step = range_of(o)
                    if step == 1 and lo is not None and hi is not None:
                        d = hi - lo
                        if st.cons.entails_ge(d):
                            l = d
                    if l is None:
                        return None
                elif o.items is not None:
                    l = Lin(len(o.items))
                else:
                    l = o.len
            if l is None:
                return None
            if r is not None and r != l:
                return None
            r = l
        return r

    def vn_of_items(self, items, kind, st):
        cs = []
        for v in items:
            ok, c = const_of(v)
            if ok:
                cs.append(("k", c))
                continue
            if len(v) == 1:
                a, = v
                if a.k == "int" and isinstance(a.p, Lin):
                    cs.append(("l", a.p))
                    continue
                if a.k == "ref":
                    o = self.I.get(st, a.p)
                    if o.vn is not None and o.kind in ("list", "tuple"):
                        cs.append(("r", o.vn))
                        continue
            return None
        return ("lit",) + tuple(cs)

    def comp_vn(self, n, src, st):
        # [x for x in y]
        g = n.generators[0]
        if isinstance(n, ast.ListComp) and isinstance(n.elt, ast.Name) and isinstance(g.target, ast.Name) \
                and n.elt.id == g.target.id and len(src) == 1:
            a, = src
            if a.k == "ref":
                return self.I.get(st, a.p).vn
        return None

    def seq_copy(self, v, kind, node, st, tag, reverse=False):
        """list(x) / tuple(x) / x[:] / x.copy()"""
        if not v:
            return self.I.new_list(st, node, [], kind=kind, tag=tag)
        if len(v) == 1:
            a, = v
            if a.k == "ref":
                o = self.I.get(st, a.p)
                if o.kind in ("list", "tuple", "iter") and not reverse:
                    if o.items is not None:
                        return self.I.new_list(st, node, o.items, kind=kind, tag=tag, vn=o.vn, ordt=o.ordt, l=a.l)
                    return self.I.new_list(st, node, None, o.elem, o.len, kind=kind, tag=tag, vn=o.vn, ordt=o.ordt, l=a.l)
                if o.kind in ("set", "frozenset"):
                    known = o.items is not None and len(o.items) <= 1
                    return self.I.new_list(st, node, o.items if known else None, o.elems(), o.len, kind=kind, tag=tag,
                                           ordt=not known, l=a.l)
                if o.kind == "range":
                    lo, hi, step = range_of(o)
                    ln = self.av_len(v, st)
                    if ln is not None and ln.is_const() and ln.c <= 8 and lo is not None and not reverse:
                        return self.I.new_list(st, node, [AInt(lo + i * step) for i in range(ln.c)], kind=kind, tag=tag)
                    return self.I.new_list(st, node, None, AInt(None), ln, kind=kind, tag=tag, vn=("range", lo, hi, step) if None not in (lo, hi, step) else None)
        elem = self.iter_elem(v, node, st)
        ordt = self.unordered(v, st)
        bad = [a for a in v if a.k in ("int", "none", "bool", "float", "sym", "fn", "cls")]
        if bad:
            self.I.synth(st, node, "TypeError", "%s object is not iterable" % bad[0].k, partial=len(bad) < len(v))
        items = self.known_items(v, st)
        if items is not None and not reverse:
            return self.I.new_list(st, node, items, kind=kind, tag=tag, l=av_labels(v))
        return self.I.new_list(st, node, None, elem, self.av_len(v, st), kind=kind, tag=tag, ordt=ordt, l=av_labels(v))

    def materialise_len(self, a, o, node, st):
        """give an unknown length a name"""
        if o.len is not None or o.summary or o.items is not None:
            return o.len if o.items is None else Lin(len(o.items))
        if o.kind not in ("list", "tuple", "set", "iter", "frozenset", "dict"):
            return None
        if a.p in self.I.base:
            return None
        s = self.I.fresh(st, node, "len")
        L = Lin.sym(s)
        st.cons = st.cons.add_ge(L) or st.cons
        o = self.I.get(st, a.p)
        st.heap[a.p] = o.rep(len=L)
        return L

    def assume_nonempty(self, v, st):
        if len(v) == 1:
            a, = v
            if a.k == "ref":
                o = self.I.get(st, a.p)
                if o.len is not None:
                    c = st.cons.add_ge(o.len - 1)
                    if c is not None:
                        st.cons = c

    def unpack(self, v, n, star, node, st):
        ki = self.known_items(v, st)
        if ki is not None and star is None:
            if len(ki) != n:
                self.I.synth(st, node, "ValueError", "wrong number of values to unpack: %d for %d" % (len(ki), n))
            return ki
        if ki is not None and star is not None and len(ki) >= n - 1:
            ki = list(ki)
            m = len(ki) - n + 1
            return ki[:star] + [ki[star:star + m]] + ki[star + m:]
        e = EMPTY
        bad = []
        good = False
        for a in v:
            if a.k == "ref":
                o = self.I.get(st, a.p)
                if o.items is not None and len(o.items) == n and star is None:
                    good = True
                    continue
                if o.items is not None and star is None:
                    bad.append(a)
                    continue
                if o.kind == "inst":
                    bad.append(a)
                    continue
            elif a.k in ("int", "none", "bool", "sym", "float", "fn"):
                bad.append(a)
                continue
            good = True
        if bad:
            self.I.synth(st, node, "TypeError", "cannot unpack %s" % self.I.tname(bad[0], st), partial=good)
        outs = []
        for i in range(n):
            r = EMPTY
            for a in v:
                if a.k == "ref":
                    o = self.I.get(st, a.p)
                    if o.items is not None and len(o.items) == n and star is None:
                        r = av_join(r, o.items[i])
                    elif o.items is None:
                        r = av_join(r, o.keyl if o.kind == "dict" else o.elem)
                        if o.kind in ("set", "frozenset"):
                            r = av_add_labels(r, self.I.nds("set order", node))
                elif a.k in ("top", "extobj"):
                    r = av_join(r, TOP)
                elif a.k == "str":
                    r = av_join(r, AStr(None))
            r = av_add_labels(r, av_labels(v))
            outs.append(r)
        return outs

    # ------------------------------------------------------------------ subscripts
    def getitem(self, ob, ix, node, st):
        out = EMPTY
        bad = []
        for a in sorted(ob, key=repr):
            r = self.getitem1(a, ix, node, st, len(ob) > 1)
            if r is None:
                bad.append(a)
            else:
                out = av_join(out, r)
        if bad:
            self.I.synth(st, node, "TypeError", "%s object is not subscriptable" % self.I.tname(bad[0], st), partial=bool(out))
        if not out:
            from .interp import Dead
            raise Dead()
        return out

    def getitem1(self, a, ix, node, st, multi):
        I = self.I
        if a.k == "extobj" and a.p[0] == "__dict__":
            r = self.idict_get(a, ix, node, st)
            if r is None:
                return TOP
            if not r[1]:
                I.synth(st, node, "KeyError", "the attribute may not be set", partial=multi or bool(r[0]))
            return r[0]
        if a.k in ("top", "extobj", "ext", "cls"):
            return TOP
        if a.k == "str":
            if isinstance(ix, tuple):
                return mk("str", None, a.l)
            return mk("str", None, a.l)
        if a.k == "ref":
            o = I.get(st, a.p)
            if o.kind == "inst":
                f = I.class_lookup(o.cls, "__getitem__", st)
                if f is None:
                    return None
                return I.call(I.bind_method(f, a, o.cls), [ix if not isinstance(ix, tuple) else TOP], {}, node, st)
            if o.kind == "dict":
                I.ctx.dloads.add(a.p)
                if o.flags and not isinstance(ix, tuple):
                    I.ev("dload", node, (o.flags, self.shape_labels(ix, st), "item"))
                if not o.fields and not o.elem and not o.summary and o.cls is None:
                    I.synth(st, node, "KeyError", "empty dictionary", partial=multi)
                    return EMPTY
                ok, c = const_of(ix) if not isinstance(ix, tuple) else (False, None)
                if ok and ("k", c) in o.fields:
                    return av_add_labels(o.fields[("k", c)], a.l)
                r = o.elem
                for v in o.fields.values():
                    r = av_join(r, v)
                if ok and not o.elem and not o.summary:
                    I.synth(st, node, "KeyError", repr(c), partial=multi)
                    return EMPTY
                return av_add_labels(r, a.l) or TOP
            if o.kind in ("set", "frozenset"):
                return None
            if o.kind == "range":
                return AInt(None)
            if o.kind in ("list", "tuple", "iter", "opaque", "ditems"):
                if isinstance(ix, tuple):
                    return self.slice(a, o, ix, node, st)
                l = a.l | av_labels(ix)
                if o.ordt:
                    l = l | self.I.nds("set order", node)
                ok, c = const_of(ix)
                if o.items is not None:
                    if ok and isinstance(c, int):
                        if -len(o.items) <= c < len(o.items):
                            return av_add_labels(o.items[c], l)
                        I.synth(st, node, "IndexError", "index %d out of range (length %d)" % (c, len(o.items)), partial=multi or o.summary)
                        return EMPTY
                    r = o.elems()
                    if not r:
                        I.synth(st, node, "IndexError", "index into an empty sequence", partial=multi or o.summary)
                        return EMPTY
                    return av_add_labels(r, l)
                if ok and isinstance(c, int) and o.len is not None and not o.summary:
                    need = o.len - (c + 1) if c >= 0 else o.len + c
                    if need.is_const() and need.c < 0 or st.cons.entails_ge(-need - 1):
                        I.synth(st, node, "IndexError", "index %d out of range" % c, partial=multi)
                        return EMPTY
                    cc = st.cons.add_ge(need)
                    if cc is not None:
                        if not st.cons.entails_ge(need):
                            # may fail: record, then continue on the in-range side
                            I.synth(st, node, "IndexError", "index %d may be out of range" % c, partial=True)
                        st.cons = cc
                r = o.elem
                if not r:
                    if o.len is not None and o.len == Lin(0) or o.len is None:
                        I.synth(st, node, "IndexError", "index into an empty sequence", partial=True)
                        return EMPTY
                    return TOP
                return av_add_labels(r, l)
            return TOP
        if a.k == "sym":
            return None
        if a.k in ("int", "none", "bool", "float", "fn", "nimpl"):
            return None
        return TOP

    def slice(self, a, o, ix, node, st):
        I = self.I
        _, lo, hi, step = ix

        def cst(v):
            if v is None:
                return True, None
            return const_of(v)
        okl, l = cst(lo)
        okh, h = cst(hi)
        oks, s = cst(step)
        kind = o.kind if o.kind in ("list", "tuple") else "list"
        labs = a.l
        for v in (lo, hi, step):
            if v is not None:
                labs = labs | av_labels(v)
                if any(x.k in ("ref", "str", "sym", "float") for x in v):
                    I.synth(st, node, "TypeError", "slice indices must be integers", partial=True)
        if okl and okh and oks and o.items is not None:
            its = list(o.items)[l:h:s]
            return I.new_list(st, node, its, kind=kind, vn=self.vn_of_items(its, kind, st), ordt=o.ordt, l=labs, tag="sl")
        if l is None and h is None and okl and okh and oks and s in (None, 1):
            return self.seq_copy(frozenset([a]), kind, node, st, "sl")
        ln = None
        vn = None
        L = Lin(len(o.items)) if o.items is not None else o.len
        if o.vn is not None:
            def key(v, ok, c):
                if v is None:
                    return "-"
                if ok:
                    return c
                if len(v) == 1:
                    x, = v
                    if x.k == "int" and isinstance(x.p, Lin):
                        return x.p
                return None
            kl, kh = key(lo, okl, l), key(hi, okh, h)
            if kl is not None and kh is not None and step is None:
                vn = ("slice", o.vn, kl, kh)
        if step is None and okl and okh and L is not None:
            if (l is None or l >= 0) and h is None:
                d = L - (l or 0)
                if st.cons.entails_ge(d):
                    ln = d
                elif st.cons.entails_ge(-d):
                    ln = Lin(0)
            elif (l is None or l == 0) and h is not None and h < 0:
                d = L + h
                if st.cons.entails_ge(d):
                    ln = d
                elif st.cons.entails_ge(-d):
                    ln = Lin(0)
        if step is not None and okl and okh and oks and l is None and h is None and s == -1:
            ln = L
        e = o.elems()
        return I.new_list(st, node, None, e, ln, kind=kind, vn=vn, ordt=o.ordt, l=labs, tag="sl")

    def setitem(self, ob, ix, v, node, st):
        I = self.I
        bad = []
        for a in ob:
            if a.k in ("ext", "extobj"):
                full = a.p if a.k == "ext" else a.p[0]
                if a.k == "extobj":
                    I.ext_change(a, "item assignment", node)
                if full == "__dict__":
                    ok, c = const_of(ix) if not isinstance(ix, tuple) else (False, None)
                    I.setattr(mk("ref", a.p[1]), c if ok and isinstance(c, str) else "?", v, node, st)
                    continue
                if full in SETTINGS:
                    I.ev("io", node, ("library setting", full))
            if a.k == "ref":
                o = I.get(st, a.p)
                if o.kind == "inst":
                    f = I.class_lookup(o.cls, "__setitem__", st)
                    if f is not None:
                        I.call(I.bind_method(f, a, o.cls), [ix if not isinstance(ix, tuple) else TOP, v], {}, node, st)
                    else:
                        bad.append(a)
                    continue
                if o.kind == "tuple":
                    bad.append(a)
                    continue
                I.mutate(st, a, node, "item assignment")
                lab = frozenset(["ordelem"]) if False else EMPTY
                if o.kind == "dict":
                    self.dict_store(a, o, ix, v, node, st)
                    continue
                ok, c = const_of(ix) if not isinstance(ix, tuple) else (False, None)
                if isinstance(ix, tuple):
                    e = av_join(o.elems(), self.iter_elem(v, node, st))
                    st.heap[a.p] = o.rep(items=None, elem=e, len=None, vn=None)
                elif o.items is not None and ok and isinstance(c, int) and -len(o.items) <= c < len(o.items) \
                        and not o.summary and len(ob) == 1:
                    its = list(o.items)
                    its[c] = v
                    st.heap[a.p] = o.rep(items=tuple(its), vn=None)
                elif o.items is not None:
                    st.heap[a.p] = o.rep(items=tuple(av_join(x, v) for x in o.items), vn=None)
                else:
                    st.heap[a.p] = o.rep(elem=av_join(o.elem, v), vn=None)
            elif a.k in ("str", "int", "none", "sym", "bool", "float"):
                bad.append(a)
        if bad:
            I.synth(st, node, "TypeError", "%s object does not support item assignment" % I.tname(bad[0], st),
                    partial=len(bad) < len(ob))

    def dict_store(self, a, o, ix, v, node, st):
        I = self.I
        I.ctx.dstores.add(a.p)
        if o.flags:
            I.ev("dstore", node, (o.flags, self.key_labels(ix, st) if I.lossy else self.shape_labels(ix, st), self.shape_labels(v, st) | st.pc))
            # what is put into shared storage becomes shared
            I.mark_reach(st, [v], frozenset("kept:" + str(x) for x in o.flags if str(x).startswith(("global:", "recv", "cached:"))))
            o = I.get(st, a.p)
        ok, c = const_of(ix)
        if ok and not o.summary and not o.elem:
            f = dict(o.fields)
            f[("k", c)] = v
            st.heap[a.p] = o.rep(fields=f, keyl=av_join(o.keyl, ix), len=Lin(len(f)) if o.len is not None else None)
        else:
            e = av_join(o.elem, v)
            for x in o.fields.values():
                e = av_join(e, x)
            st.heap[a.p] = o.rep(fields={}, elem=e, keyl=av_join(o.keyl, ix), len=None)

    def key_labels(self, v, st):
        """the inputs a key is made of; lossy:x for one it does not determine"""
        whole, part, mixed = set(), set(), []

        def walk(v, depth, direct):
            for a in v:
                P = {x for x in a.l if isinstance(x, str) and x.startswith("P:")}
                bad = {"P:" + x[6:] for x in a.l if isinstance(x, str) and x.startswith("lossy:")}
                part.update(P)
                o = self.I.get(st, a.p) if a.k == "ref" else None
                if o is None:
                    if direct and a.k == "int" and len(P - bad) > 1 and len(v) == 1:
                        mixed.append(P - bad)
                    else:
                        whole.update(P - bad)
                    continue
                if depth:
                    for x in list(o.fields.values()) + list(o.items or ()):
                        walk(x, depth - 1, direct and o.kind == "tuple" and o.items is not None)
                    walk(o.elem, depth - 1, False)
        walk(v, 4, True)
        go = True
        while go:
            go = False
            for m in mixed:
                if len(m - whole) == 1:
                    whole |= m
                    go = True
        return frozenset(part) | frozenset("lossy:" + x[2:] for x in part - whole)

    def shape_labels(self, v, st, depth=4):
        """labels of everything v is made of"""
        out = av_labels(v)
        if depth == 0:
            return out
        for a in v:
            if a.k == "ref":
                o = self.I.get(st, a.p)
                if o is None:
                    continue
                for x in o.fields.values():
                    out |= self.shape_labels(x, st, depth - 1)
                if o.items is not None:
                    for x in o.items:
                        out |= self.shape_labels(x, st, depth - 1)
                out |= self.shape_labels(o.elem, st, depth - 1)
        return out

    # ------------------------------------------------------------------ list methods
    def list_extend(self, a, rhs, node, st, op="extend"):
        I = self.I
        o = I.get(st, a.p)
        I.mutate(st, a, node, op)
        bad = [x for x in rhs if x.k in ("int", "none", "bool", "float", "sym")]
        if bad:
            I.synth(st, node, "TypeError", "%s object is not iterable" % bad[0].k, partial=len(bad) < len(rhs))
        ki = self.known_items(rhs, st)
        ordt = o.ordt or self.unordered(rhs, st)
        if o.items is not None and ki is not None and not o.summary and len(o.items) + len(ki) <= 24:
            its = tuple(o.items) + tuple(ki)
            st.heap[a.p] = o.rep(items=its, len=Lin(len(its)), vn=self.vn_of_items(its, "list", st), ordt=ordt)
            return
        e = av_join(o.elems(), self.iter_elem(rhs, node, st))
        la = Lin(len(o.items)) if o.items is not None else o.len
        lb = self.av_len(rhs, st)
        st.heap[a.p] = o.rep(items=None, elem=e, len=(la + lb) if (la is not None and lb is not None and not o.summary) else None,
                             vn=None, ordt=ordt)

    def append(self, a, v, node, st, op="append"):
        I = self.I
        o = I.get(st, a.p)
        I.mutate(st, a, node, op)
        ordt = o.ordt or any(x == "ord" for x in I.ctx.loopord)
        if o.items is not None and not o.summary and len(o.items) < 24:
            its = tuple(o.items) + (v,)
            st.heap[a.p] = o.rep(items=its, len=Lin(len(its)), vn=self.vn_of_items(its, "list", st), ordt=ordt)
        else:
            la = Lin(len(o.items)) if o.items is not None else o.len
            st.heap[a.p] = o.rep(items=None, elem=av_join(o.elems(), v), len=la + 1 if la is not None and not o.summary else None,
                                 vn=None, ordt=ordt)

    # the attribute dictionary of an object: the object's fields under another notation
    IDICT = {"get", "setdefault", "pop", "update", "__getitem__", "__setitem__", "__contains__"}

    def idict_get(self, a, ix, node, st):
        """(value, surely there) of an entry; None: the key is not known"""
        ok, c = const_of(ix) if not isinstance(ix, tuple) else (False, None)
        o = self.I.get(st, a.p[1])
        if not ok or not isinstance(c, str) or o is None or o.kind != "inst":
            return None
        v = o.fields.get(c, EMPTY)
        there = bool(v) and not any(x.k == "unbound" for x in v)
        v = frozenset(x for x in v if x.k != "unbound")
        if v and o.flags:
            self.I.ev("read", node, (c, o.flags))
        return v, there

    def idict_method(self, a, name, args, kw, node, st):
        I = self.I
        obj = mk("ref", a.p[1])
        if name == "update":
            for k, v in kw.items():
                I.setattr(obj, k, v, node, st)
            for d in args:
                for x in d if not isinstance(d, tuple) else ():
                    o = I.get(st, x.p) if x.k == "ref" else None
                    if o is not None and o.kind == "dict" and not o.elem and not o.summary:
                        for k, v in o.fields.items():
                            I.setattr(obj, k[1] if isinstance(k[1], str) else "?", v, node, st)
                    else:
                        I.setattr(obj, "?", TOP, node, st)
            return NONE
        if not args or isinstance(args[0], tuple):
            return TOP
        if name == "__setitem__" and len(args) > 1:
            self.setitem(frozenset([a]), args[0], args[1], node, st)
            return NONE
        r = self.idict_get(a, args[0], node, st)
        if name == "__contains__":
            return ABool(r[1] if r is not None and (r[1] or not r[0]) else None)
        if r is None:
            if name in ("setdefault", "pop"):
                I.setattr(obj, "?", args[1] if name == "setdefault" and len(args) > 1 else TOP, node, st)
            return TOP
        v, there = r
        dflt = args[1] if len(args) > 1 else NONE
        if name == "get":
            return v if there else av_join(v, dflt)
        if name == "setdefault":
            if there:
                return v
            _, c = const_of(args[0])
            I.setattr(obj, c, av_join(v, dflt), node, st)
            return I.getattr(obj, c, node, st)
        if name == "pop":
            return v if there else av_join(v, dflt) or TOP
        return v or TOP

    def call_method(self, a, name, args, kwargs, node, st):
        """method of a built-in object"""
        I = self.I
        if a.k == "extobj" and a.p[0] == "__dict__":
            return self.idict_method(a, name, args, kwargs, node, st)
        if a.k == "ref":
            o = I.get(st, a.p)
            f = getattr(self, "m_%s_%s" % (o.kind, name), None)
            if f is not None:
                args = [self.iter_elem(x[1], node, st) if isinstance(x, tuple) else x for x in args]
                return f(a, o, args, kwargs, node, st)
            I.note("method", "%s.%s" % (o.kind, name), node)
            return TOP
        if a.k == "str":
            return self.str_method(a, name, args, kwargs, node, st)
        if a.k == "sym":
            return self.sym_method(a, name, args, kwargs, node, st)
        if a.k in ("int", "bool", "float"):
            if name in ("bit_length", "__abs__"):
                return AInt(None, a.l)
            if name == "is_integer":
                return ABool(None)
            return TOP
        return TOP

    LIST_METHODS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "copy", "index", "count"}

    def m_list_append(self, a, o, args, kw, n, st):
        self.append(a, args[0], n, st)
        return NONE

    def m_list_extend(self, a, o, args, kw, n, st):
        self.list_extend(a, args[0], n, st)
        return NONE

    def m_list_insert(self, a, o, args, kw, n, st):
        ok, c = const_of(args[0])
        its = o.items
        self.append(a, args[1], n, st, "insert")
        o2 = self.I.get(st, a.p)
        if its is not None and ok and isinstance(c, int) and c == 0 and not o.summary:
            new = (args[1],) + tuple(its)
            st.heap[a.p] = o2.rep(items=new, len=Lin(len(new)), vn=self.vn_of_items(new, "list", st))
        else:
            st.heap[a.p] = o2.rep(items=None, elem=o2.elems(), vn=None,
                                  len=o2.len)
        return NONE

    def m_list_pop(self, a, o, args, kw, n, st):
        I = self.I
        I.mutate(st, a, n, "pop")
        l = self.I.nds("set order", n) if o.ordt else EMPTY
        if o.items is not None and not o.summary:
            if not o.items:
                I.synth(st, n, "IndexError", "pop from empty list")
            ok, c = const_of(args[0]) if args else (True, -1)
            if ok and isinstance(c, int) and -len(o.items) <= c < len(o.items):
                its = list(o.items)
                x = its.pop(c)
                st.heap[a.p] = o.rep(items=tuple(its), len=Lin(len(its)), vn=self.vn_of_items(its, "list", st))
                return av_add_labels(x, a.l | l)
        e = o.elems()
        st.heap[a.p] = o.rep(items=None, elem=e, len=o.len - 1 if (o.len is not None and not o.summary) else None, vn=None)
        if not e:
            I.synth(st, n, "IndexError", "pop from empty list", partial=True)
            return TOP
        return av_add_labels(e, a.l | l)

    def m_list_remove(self, a, o, args, kw, n, st):
        self.I.mutate(st, a, n, "remove")
        st.heap[a.p] = o.rep(items=None, elem=o.elems(), len=None, vn=None)
        return NONE

    def m_list_clear(self, a, o, args, kw, n, st):
        self.I.mutate(st, a, n, "clear")
        if o.summary:
            st.heap[a.p] = o.rep(items=None, elem=o.elems(), len=None, vn=None)
        else:
            st.heap[a.p] = o.rep(items=(), elem=EMPTY, len=Lin(0), vn=("lit",), ordt=False)
        return NONE

    def m_list_sort(self, a, o, args, kw, n, st):
        self.I.mutate(st, a, n, "sort")
        tie = self.sort_key(frozenset([a]), kw, n, st)
        o = self.I.get(st, a.p)
        st.heap[a.p] = o.rep(items=o.items if o.items is not None and len(o.items) < 2 else None, elem=o.elems(),
                             len=Lin(len(o.items)) if o.items is not None else o.len, vn=None, ordt=tie == "key" or o.ordt and bool(tie))
        return NONE

    def m_list_reverse(self, a, o, args, kw, n, st):
        self.I.mutate(st, a, n, "reverse")
        st.heap[a.p] = o.rep(items=tuple(reversed(o.items)) if o.items is not None else None,
                             vn=None)
        return NONE

    def m_list_copy(self, a, o, args, kw, n, st):
        return self.seq_copy(frozenset([a]), "list", n, st, "copy")

    def m_list_index(self, a, o, args, kw, n, st):
        return AInt(None, a.l | (self.I.nds("set order", n) if o.ordt else EMPTY))

    def m_list_count(self, a, o, args, kw, n, st):
        return AInt(None, a.l)

    m_tuple_index = m_list_index
    m_tuple_count = m_list_count

    # ---- sets
    def m_set_add(self, a, o, args, kw, n, st):
        self.I.mutate(st, a, n, "add")
        bad = [x for x in args[0] if x.k == "ref" and self.I.get(st, x.p).kind in ("list", "dict", "set")]
        if bad:
            self.I.synth(st, n, "TypeError", "unhashable type", partial=len(bad) < len(args[0]))
        if o.flags:
            self.I.ev("dstore", n, (o.flags, self.shape_labels(args[0], st), EMPTY))
        st.heap[a.p] = self.I.get(st, a.p).rep(items=None, elem=av_join(o.elems(), args[0]), len=None, vn=None)
        return NONE

    def m_set_update(self, a, o, args, kw, n, st):
        self.I.mutate(st, a, n, "update")
        e = o.elems()
        for x in args:
            e = av_join(e, self.iter_elem(x, n, st))
        st.heap[a.p] = o.rep(items=None, elem=e, len=None, vn=None)
        return NONE

    def _set_remove(self, a, o, args, kw, n, st):
        self.I.mutate(st, a, n, "remove")
        st.heap[a.p] = o.rep(items=None, elem=o.elems(), len=None, vn=None)
        return NONE
    m_set_discard = m_set_remove = m_set_clear = m_set_difference_update = m_set_intersection_update = _set_remove

    def m_set_pop(self, a, o, args, kw, n, st):
        self.I.mutate(st, a, n, "pop")
        st.heap[a.p] = o.rep(items=None, elem=o.elems(), len=None, vn=None)
        return av_add_labels(o.elems(), self.I.nds("set order", n)) or TOP

    def _set_op(self, a, o, args, kw, n, st, diff=False):
        e = o.elems()
        if not diff:
            for x in args:
                e = av_join(e, self.iter_elem(x, n, st))
        return self.I.alloc(st, n, Obj("set", None, None, None, e, None), "op")

    def m_set_union(self, a, o, args, kw, n, st):
        return self._set_op(a, o, args, kw, n, st)

    m_set_symmetric_difference = m_set_union

    def m_set_intersection(self, a, o, args, kw, n, st):
        return self._set_op(a, o, args, kw, n, st, True)

    def m_set_difference(self, a, o, args, kw, n, st):
        r = self.set_minus(a, args[0], n, st) if args else None
        return r if r is not None else self._set_op(a, o, args, kw, n, st, True)

    def m_set_copy(self, a, o, args, kw, n, st):
        return self.I.alloc(st, n, o.rep(flags=EMPTY, summary=False), "copy")

    def _bool(self, a, o, args, kw, n, st):
        return ABool(None)
    m_set_issubset = m_set_issuperset = m_set_isdisjoint = _bool

    def set_minus(self, a, other, n, st):
        """known items minus known items"""
        o = self.I.get(st, a.p)
        ki = self.known_items(other, st)
        if o.items is None or ki is None or o.summary:
            return None
        out = []
        for x in o.items:
            r = self.same_in(x, ki)
            if r is None:
                return None
            if not r:
                out.append(x)
        return self.I.alloc(st, n, Obj("set", None, None, tuple(out), EMPTY, Lin(len(out))), "minus")

    def distinct(self, items):
        """items without repetition if it is known which are equal, else None"""
        seen = {}
        for v in items:
            ok, c = const_of(v)
            if ok:
                i = ("k", c)
            elif len(v) == 1:
                a, = v
                if a.k != "sym" or a.p.val is None or len(a.p.val) != 1:
                    return None
                (m, c), = a.p.val
                if c != 1 or len(m) != 1 or m[0][1] != 1 or not isinstance(m[0][0], tuple):
                    return None
                at = m[0][0]
                if at[0] != "q" and not (at[0] == "S" and lit_numbers(at[1])):
                    return None
                i = at
            else:
                return None
            seen.setdefault(i, v)
        return tuple(seen.values())

    def same_in(self, x, items):
        """is x equal to one of items: True/False/None"""
        def ident(v):
            ok, c = const_of(v)
            if ok:
                return ("k", c)
            if len(v) == 1:
                a, = v
                if a.k == "sym" and a.p.val is not None and len(a.p.val) == 1:
                    (m, c), = a.p.val
                    if c == 1 and len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], tuple) and m[0][0][0] in ("q", "S"):
                        return ("s", m[0][0])
            return None
        i = ident(x)
        if i is None:
            return None
        for y in items:
            j = ident(y)
            if j is None:
                return None
            if i == j:
                return True
        return False

    # ---- dicts
    def m_dict_get(self, a, o, args, kw, n, st):
        ok, c = const_of(args[0])
        d = args[1] if len(args) > 1 else NONE
        if ok and ("k", c) in o.fields:
            return o.fields[("k", c)]
        r = d
        if not (ok and not o.elem and not o.summary):
            r = av_join(r, o.elem)
            for x in o.fields.values():
                r = av_join(r, x)
        self.I.ctx.dloads.add(a.p)
        if o.flags:
            self.I.ev("dload", n, (o.flags, self.shape_labels(args[0], st), "get"))
        return av_add_labels(r, EMPTY) or TOP

    def m_dict_setdefault(self, a, o, args, kw, n, st):
        v = args[1] if len(args) > 1 else NONE
        self.I.ctx.dloads.add(a.p)
        self.I.mutate(st, a, n, "setdefault")
        self.dict_store(a, o, args[0], v, n, st)
        o2 = self.I.get(st, a.p)
        r = o2.elem
        for x in o2.fields.values():
            r = av_join(r, x)
        return r

    def m_dict_items(self, a, o, args, kw, n, st):
        if not o.elem and not o.summary and o.len is not None:
            its = []
            for k, v in o.fields.items():
                its.append(self.I.new_list(st, n, [self.const_av(k[1]), v], kind="tuple", tag="it%r" % (k[1],)))
            return self.I.new_list(st, n, its, kind="list", tag="items")
        e = o.elem
        for x in o.fields.values():
            e = av_join(e, x)
        t = self.I.new_list(st, n, [o.keyl, e], kind="tuple", tag="it")
        return self.I.new_list(st, n, None, t, o.len, kind="list", tag="items")

    def m_dict_keys(self, a, o, args, kw, n, st):
        return self.I.new_list(st, n, None, o.keyl, o.len, kind="list", tag="keys")

    def m_dict_values(self, a, o, args, kw, n, st):
        e = o.elem
        for x in o.fields.values():
            e = av_join(e, x)
        return self.I.new_list(st, n, None, e, o.len, kind="list", tag="values")

    def m_dict_update(self, a, o, args, kw, n, st):
        self.I.mutate(st, a, n, "update")
        e, k = o.elem, o.keyl
        for x in o.fields.values():
            e = av_join(e, x)
        for d in args:
            for x in d:
                if x.k == "ref":
                    od = self.I.get(st, x.p)
                    e = av_join(e, od.elem)
                    for y in od.fields.values():
                        e = av_join(e, y)
                    k = av_join(k, od.keyl)
        for kk, v in kw.items():
            if not isinstance(v, tuple):
                e = av_join(e, v)
        st.heap[a.p] = o.rep(fields={}, elem=e, keyl=k, len=None)
        return NONE

    def m_dict_pop(self, a, o, args, kw, n, st):
        self.I.mutate(st, a, n, "pop")
        e = o.elem
        for x in o.fields.values():
            e = av_join(e, x)
        if len(args) > 1:
            e = av_join(e, args[1])
        st.heap[a.p] = o.rep(fields={}, elem=e, len=None)
        return e or TOP

    def m_dict_clear(self, a, o, args, kw, n, st):
        self.I.mutate(st, a, n, "clear")
        return NONE

    def m_dict_copy(self, a, o, args, kw, n, st):
        return self.I.alloc(st, n, o.rep(flags=EMPTY, summary=False), "copy")

    # ------------------------------------------------------------------ attributes of primitives
    def attr_ref(self, a, o, name, node, st):
        methods = {"list": self.LIST_METHODS, "tuple": {"index", "count"},
                   "set": {"add", "update", "discard", "remove", "clear", "pop", "union", "intersection", "difference",
                           "symmetric_difference", "copy", "issubset", "issuperset", "isdisjoint", "difference_update",
                           "intersection_update"},
                   "frozenset": {"union", "intersection", "difference", "copy", "issubset"},
                   "dict": {"get", "setdefault", "items", "keys", "values", "update", "pop", "clear", "copy"}}
        if o.kind in methods:
            if name in methods[o.kind]:
                return mk("meth", (a, name))
            if name.startswith("__") and name.endswith("__"):
                if name == "__contains__":
                    return mk("meth", (a, name))
                return TOP
            return None
        if o.kind == "module":
            return o.fields.get(name)
        return TOP

    def m_list___contains__(self, a, o, args, kw, n, st):
        return ABool(None)
    m_tuple___contains__ = m_set___contains__ = m_dict___contains__ = m_list___contains__

    def object_attr(self, a, name, node, st):
        if name in ("__str__", "__repr__", "__hash__", "__eq__", "__init__", "__class__", "__doc__"):
            return mk("ext", "object." + name)
        return None

    STR_METHODS = {m for m in dir(str) if not m.startswith("_")} | {"__contains__", "__len__"}

    def attr_prim(self, a, name, node, st):
        if a.k == "str":
            if name in self.STR_METHODS:
                return mk("meth", (a, name))
            return None
        if a.k == "sym":
            if self.I.naming:
                r = self.ex_attr(a, name, node, st)
                if r is not None:
                    return r
            if name in self.KIND_ATTRS:
                yes, no = self.KIND_ATTRS[name]
                if a.p.cls and not (a.p.cls & yes):
                    return ABool(False, a.l)
                if a.p.cls and not (a.p.cls & no):
                    return ABool(True, a.l)
                return ABool(None, a.l)
            if name == "args":
                return self.sym_args(a, node, st)
            if name == "func":
                h = {frozenset(("add",)): "Add", frozenset(("mul",)): "Mul", frozenset(("pow",)): "Pow"}.get(a.p.cls, "<func>")
                return mk("ext", "sympy." + h, a.l)
            if name == "free_symbols":
                return self.free_symbols(a, node, st)
            if name in ("base", "exp"):
                if a.p.cls <= {"pow"} or "pow" in a.p.cls or "other" in a.p.cls:
                    return ASym(Sym(A, "unk", None, a.p.part), a.l)
                return None
            if name == "name":
                if a.p.cls & {"schur", "q", "var"}:
                    return self.text_of_sym(a, st)
                return None
            if name in ("p", "q"):
                if "num" in a.p.cls:
                    return AInt(None, a.l)
                return None
            if name in ("expr", "symbol", "partition", "apply", "apply2"):
                return None
            import_ok = SYMPY_EXPR_ATTRS
            if name in import_ok:
                return mk("meth", (a, name))
            if name in PY_LIST_STR:
                return None
            return mk("meth", (a, name))
        if a.k in ("int", "bool", "float"):
            if name in ("real", "numerator"):
                return frozenset([a])
            if name in ("is_integer", "bit_length", "as_integer_ratio", "conjugate", "__abs__"):
                return mk("meth", (a, name))
            if name in ("imag", "denominator"):
                return AInt(None)
            return None
        if a.k == "none" or a.k == "nimpl":
            return None
        if a.k == "extobj":
            return mk("extobj", (a.p[0] + "." + name, a.p[1] if len(a.p) > 1 else None), a.l)
        if a.k == "meth":
            return TOP
        return TOP

    # ------------------------------------------------------------------ truthiness
    def truth_atom(self, a, st, node):
        """(state if true, state if false, atom if true, atom if false)"""
        I = self.I
        k = a.k
        if k == "none":
            return None, st, a, a
        if k == "bool":
            if a.p is True:
                return st, None, a, a
            if a.p is False:
                return None, st, a, a
            if isinstance(a.p, tuple):
                t = self.assume_cmp(st, a.p, True)
                f = self.assume_cmp(st, a.p, False)
                return t, f, Atom("bool", True, a.l), Atom("bool", False, a.l)
            return st.copy(), st.copy(), Atom("bool", True, a.l), Atom("bool", False, a.l)
        if k == "int":
            l = lin_of(a)
            if l is None:
                return st.copy(), st.copy(), a, Atom("int", Lin(0), a.l)
            t = self.assume_cmp(st, ("ne", l), True)
            f = self.assume_cmp(st, ("ne", l), False)
            return t, f, a, Atom("int", Lin(0), a.l)
        if k == "str":
            if isinstance(a.p, str):
                return (st, None, a, a) if a.p else (None, st, a, a)
            if isinstance(a.p, StrD):
                return st, None, a, a
            return st.copy(), st.copy(), a, Atom("str", "", a.l)
        if k == "ref":
            o = I.get(st, a.p)
            if o.kind == "inst":
                for nm in ("__bool__", "__len__"):
                    f = I.class_lookup(o.cls, nm, st)
                    if f is not None:
                        s = st.copy()
                        r = I.call(I.bind_method(f, a, o.cls), [], {}, node, s)
                        t, ff, vt, vf = I.truth(r, s, node)
                        return t, ff, a, a
                return st, None, a, a
            if o.kind in ("list", "tuple", "set", "dict", "frozenset"):
                L = Lin(len(o.items)) if o.items is not None else o.len
                if L is None:
                    s = st.copy()
                    L = self.materialise_len(a, o, node, s)
                    if L is None:
                        return st.copy(), st.copy(), a, a
                    st = s
                t = self.assume_cmp(st, ("ge", L - 1), True)
                f = self.assume_cmp(st, ("ge", L - 1), False)
                return t, f, a, a
            if o.kind in ("iter",):
                return st, None, a, a
            return st.copy(), st.copy(), a, a
        if k == "sym":
            if a.p.val is not None and len(a.p.val) == 0:
                return None, st, a, a
            if "num" in a.p.cls:
                f = Atom("sym", Sym(["num"], "mono", poly_const(0), ()), a.l)
                c = poly_is_const(a.p.val) if a.p.val is not None else None
                if c is not None:
                    return (st, None, a, a) if c != 0 else (None, st, a, a)
                return st.copy(), st.copy(), a, f
            return st, None, a, a
        if k in ("fn", "bm", "cls", "mod", "memo", "ext", "meth", "partial", "hookfn", "super", "static"):
            return st, None, a, a
        return st.copy(), st.copy(), a, a

    def assume_cmp(self, st, c, truth):
        kind, l = c
        cons = st.cons
        if kind == "ge":
            r = cons.add_ge(l if truth else -l - 1)
        elif kind == "eq":
            r = cons.add_eq(l) if truth else cons.add_ne(l)
        else:
            r = cons.add_ne(l) if truth else cons.add_eq(l)
        if r is None:
            return None
        sp = self.I.splits
        if sp is not None and truth and l.syms() and l.syms() <= {"m", "h"}:
            other = cons.add_ge(-l - 1) if kind == "ge" else cons.add_ne(l) if kind == "eq" else cons.add_eq(l)
            if other is not None:
                sp.append((kind, l))
        s = st.copy()
        s.cons = r
        # decide exactness: is the opposite also possible?  (handled by caller)
        return s

    # ------------------------------------------------------------------ isinstance
    def isinstance_atom(self, a, cl, st):
        """(True/False/None, AV when true, AV when false)"""
        me = frozenset([a])
        res = False
        yes, no = EMPTY, me
        for c in self.flat_classes(cl, st):
            r, y = self.isinst1(a, c, st)
            if r is True:
                return True, me, EMPTY
            if r is None:
                res = None
                yes = av_join(yes, y)
        if res is None:
            nn = me
            if a.k == "sym":
                rest = set(a.p.cls)
                for c in self.flat_classes(cl, st):
                    if c.k == "ext" and "." in c.p:
                        nm = c.p.split(".")[-1]
                        if nm == "Number":
                            rest -= {"num"}
                        elif nm == "Add":
                            rest -= {"add"}
                        elif nm == "Mul":
                            rest -= {"mul"}
                        elif nm == "Pow":
                            rest -= {"pow"}
                        elif nm == "Symbol":
                            rest -= {"schur", "q", "var"}
                nn = frozenset([Atom("sym", a.p.rep(cls=rest), a.l)])
            return None, yes, nn
        return False, EMPTY, me

    def flat_classes(self, cl, st):
        out = []
        for c in cl:
            if c.k == "ref":
                o = self.I.get(st, c.p)
                for x in o.elems():
                    out.extend(self.flat_classes(frozenset([x]), st))
            elif c.k == "uniontype":
                for x in c.p:
                    out.extend(self.flat_classes(frozenset([x]), st))
            else:
                out.append(c)
        return out

    def isinst1(self, a, c, st):
        k = a.k
        me = frozenset([a])
        if k == "top":
            return None, self.type_av(c, st)
        if c.k == "cls":
            if k == "ref":
                o = self.I.get(st, a.p)
                return (o.kind == "inst" and c.p in o.cls.mro), me
            if k == "extobj":
                return None, me
            return False, me
        if c.k == "ext":
            nm = c.p.split(".")[-1]
            mod = c.p.split(".")[0]
            if nm == "object":
                return True, me
            if mod == "builtins":
                if k == "int":
                    return nm == "int", me
                if k == "bool":
                    return nm in ("bool", "int"), me
                if k == "float":
                    return nm == "float", me
                if k == "str":
                    return nm == "str", me
                if k == "ref":
                    o = self.I.get(st, a.p)
                    if o.kind == "inst":
                        return False, me
                    if o.kind == "iter" or o.kind == "opaque":
                        return (False if nm in ("list", "tuple", "int", "str", "dict") else None), me
                    return nm == o.kind or (nm == "type" and False), me
                if k == "cls":
                    return nm == "type", me
                if k in ("none", "fn", "bm", "memo", "meth", "sym"):
                    return False, me
                return None, me
            if mod == "sympy":
                if k == "sym":
                    return self.sym_isinst(a, nm)
                if k in ("extobj", "top"):
                    return None, me
                return False, me
            if mod in ("numbers", "typing", "collections", "types", "numpy"):
                if mod == "collections" or mod == "typing":
                    if nm in ("Sequence", "List") and k == "ref":
                        o = self.I.get(st, a.p)
                        if o.kind in ("list", "tuple"):
                            return True if nm == "Sequence" or o.kind == "list" else False, me
                        if o.kind in ("inst", "set", "dict"):
                            return False, me
                    if nm == "Sequence" and k == "str":
                        return True, me
                    if nm in ("Iterable", "Collection", "Container", "Sized") and k == "ref":
                        o = self.I.get(st, a.p)
                        if o.kind != "inst":
                            return True, me
                    if nm == "Callable":
                        return k in ("fn", "bm", "memo", "cls", "meth", "ext", "hookfn"), me
                    if k in ("int", "none", "sym", "bool"):
                        return False, me
                if mod == "numbers":
                    if k in ("int", "bool"):
                        return nm in ("Number", "Integral", "Real", "Rational", "Complex"), me
                    if k == "float":
                        return nm in ("Number", "Real", "Complex"), me
                    if k in ("str", "ref", "none"):
                        return False, me
                    if k == "sym" and not (a.p.cls & {"num"}):
                        return False, me
                if mod == "numpy" and k in ("int", "bool", "str", "ref", "none", "sym", "float"):
                    return False, me
                if mod == "types" and nm == "GeneratorType" and k == "ref":
                    return None, me
                return None, me
            return None, me
        if c.k == "none":
            return k == "none", me
        return None, me

    def type_av(self, c, st):
        """an unknown value after a successful isinstance test"""
        if c.k == "ext":
            nm = c.p.split(".")[-1]
            if c.p.startswith("builtins."):
                return {"int": AInt(None), "str": AStr(None), "bool": ABool(None), "float": mk("float")}.get(nm, TOP)
            if c.p.startswith("sympy."):
                return ASym(Sym(cls={"num"}) if nm in SYMPY_NUM else Sym())
        return TOP

    def sym_isinst(self, a, nm):
        me = frozenset([a])
        cls = a.p.cls

        def by(yes):
            t = cls & yes
            if t == cls:
                return True, me
            if not t:
                return False, me
            return None, frozenset([Atom("sym", a.p.rep(cls=t), a.l)])
        if nm in SYMPY_EXPR:
            if nm in ("Atom", "AtomicExpr"):
                return by(frozenset(["num", "schur", "q", "var"]))
            return True, me
        if nm in ("Symbol", "Dummy"):
            return by(frozenset(["schur", "q", "var"]))
        if nm == "Number":
            return by(frozenset(["num"]))
        if nm in ("Integer", "Rational"):
            t = cls & {"num"}
            if not t:
                return False, me
            c = poly_is_const(a.p.val) if a.p.val is not None else None
            if cls == {"num"} and c is not None:
                return (True if (nm == "Rational" or c.denominator == 1) else False), me
            return None, frozenset([Atom("sym", a.p.rep(cls=t), a.l)])
        if nm == "Add":
            return by(frozenset(["add"]))
        if nm == "Mul":
            return by(frozenset(["mul"]))
        if nm == "Pow":
            return by(frozenset(["pow"]))
        if nm in SYMPY_NUM:
            t = cls & {"num"}
            if not t:
                return False, me
            return None, frozenset([Atom("sym", a.p.rep(cls=t), a.l)])
        if nm == "Poly":
            return False, me
        t = cls & {"other"}
        if not t:
            return False, me
        return None, me

    # ------------------------------------------------------------------ comparisons
    def compare(self, op, a, b, node, st):
        I = self.I
        out = EMPTY
        labs = av_labels(a) | av_labels(b)
        o = type(op).__name__
        bad = []
        for x in a:
            for y in b:
                r = self.compare1(o, x, y, node, st)
                if r is None:
                    bad.append((x, y))
                else:
                    out = av_join(out, r)
        if bad:
            I.synth(st, node, "TypeError", "%s not supported between %s and %s" % (o, I.tname(bad[0][0], st), I.tname(bad[0][1], st)),
                    partial=bool(out))
        return av_add_labels(out, labs)

    def compare1(self, o, x, y, node, st):
        I = self.I
        if o in ("Is", "IsNot"):
            if x.k == "none" or y.k == "none":
                if x.k == y.k:
                    return ABool(o == "Is")
                if "top" in (x.k, y.k):
                    return ABool(None)
                return ABool(o != "Is")
            if x.k in ("ext", "cls") and y.k in ("ext", "cls"):
                # types are the same object exactly when they are the same type
                r = self.equal(x, y, st)
                if r in (True, False):
                    return ABool(r == (o == "Is"))
            return ABool(None)
        if o in ("In", "NotIn"):
            r = self.contains(y, x, node, st)
            if r is None:
                return None
            if o == "NotIn":
                ok, c = const_of(r)
                if ok and isinstance(c, bool):
                    return ABool(not c)
            return r
        if x.k == "top" or y.k == "top":
            return ABool(None)
        # user classes
        for p, q, refl in ((x, y, False), (y, x, True)):
            if p.k == "ref":
                ob = I.get(st, p.p)
                if ob.kind == "inst":
                    nm = {"Eq": "__eq__", "NotEq": "__ne__", "Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[o]
                    if refl:
                        nm = {"__lt__": "__gt__", "__gt__": "__lt__", "__le__": "__ge__", "__ge__": "__le__"}.get(nm, nm)
                    f = I.class_lookup(ob.cls, nm, st)
                    if f is None and nm == "__ne__":
                        f = I.class_lookup(ob.cls, "__eq__", st)
                        if f is not None:
                            r = I.call(I.bind_method(f, p, ob.cls), [frozenset([q])], {}, node, st)
                            if all(z.k == "bool" for z in r):
                                return frozenset(w.with_l(w.l | z.l) for z in r for w in ABool(not z.p if z.p in (True, False) else None))
                            return ABool(None)
                    if f is not None:
                        r = I.call(I.bind_method(f, p, ob.cls), [frozenset([q])], {}, node, st)
                        rest = frozenset(z for z in r if z.k != "nimpl")
                        if rest:
                            return rest
                        continue
        if o in ("Eq", "NotEq"):
            r = self.equal(x, y, st)
            if r is None:
                lx, ly = lin_of(x), lin_of(y)
                if lx is not None and ly is not None:
                    d = lx - ly
                    return mk("bool", ("eq" if o == "Eq" else "ne", d))
                return ABool(None)
            return ABool(r if o == "Eq" else not r)
        # ordering
        lx, ly = lin_of(x), lin_of(y)
        if x.k == "bool" and x.p in (True, False):
            lx = Lin(int(x.p))
        if y.k == "bool" and y.p in (True, False):
            ly = Lin(int(y.p))
        num = ("int", "bool", "float")
        if lx is not None and ly is not None:
            d = {"Lt": ly - lx - 1, "LtE": ly - lx, "Gt": lx - ly - 1, "GtE": lx - ly}[o]
            if st.cons.entails_ge(d):
                return ABool(True)
            if st.cons.entails_ge(-d - 1):
                return ABool(False)
            return mk("bool", ("ge", d))
        if x.k in num and y.k in num:
            return ABool(None)
        if x.k == "str" and y.k == "str":
            return ABool(None)
        if x.k == "ref" and y.k == "ref":
            ox, oy = I.get(st, x.p), I.get(st, y.p)
            if ox.kind == oy.kind and ox.kind in ("list", "tuple", "set", "frozenset"):
                return ABool(None)
            if "opaque" in (ox.kind, oy.kind):
                return ABool(None)
            return None
        if x.k == "sym" and y.k in num + ("sym",) or y.k == "sym" and x.k in num:
            return ABool(None)
        if "extobj" in (x.k, y.k):
            return TOP
        return None

    def equal(self, x, y, st):
        """True / False / None"""
        if x.k in ("ext", "cls") and y.k in ("ext", "cls"):
            # types: builtin ones are told apart by name, those of the tree by identity
            if x.k == y.k == "cls":
                return x.p is y.p or x.p == y.p
            bx, by = (z.k == "cls" or str(z.p).startswith("builtins.") for z in (x, y))
            if bx and by or x.p == y.p:
                return x.k == y.k and x.p == y.p
            return None
        okx, cx = const_of(frozenset([x]))
        oky, cy = const_of(frozenset([y]))
        if okx and oky:
            return cx == cy
        lx, ly = lin_of(x), lin_of(y)
        if lx is not None and ly is not None:
            d = lx - ly
            if d.is_const():
                return d.c == 0
            if st.cons.entails_eq(d):
                return True
            if st.cons.entails_ne(d):
                return False
            return None
        for u, ok, c in ((x, oky, cy), (y, okx, cx)):
            # the text of a class starts with S, the text of any other plain symbol is its name
            if ok and isinstance(c, str) and u.k == "str" and isinstance(u.p, StrD) and u.p.kind == "schur" and c[:1] != "S":
                return False
        group = {"int": "n", "bool": "n", "float": "n", "sym": "n"}
        gx, gy = group.get(x.k, x.k), group.get(y.k, y.k)
        if "top" in (gx, gy) or "extobj" in (gx, gy):
            return None
        if x.k == "ref" and y.k == "ref":
            ox, oy = self.I.get(st, x.p), self.I.get(st, y.p)
            if ox.kind != oy.kind and ox.kind != "opaque" and oy.kind != "opaque" and not (ox.kind == "inst" or oy.kind == "inst"):
                return False
            if ox.len is not None and oy.len is not None and ox.kind == oy.kind and ox.kind in ("list", "tuple"):
                if st.cons.entails_ne(ox.len - oy.len):
                    return False
                if ox.len == Lin(0) and oy.len == Lin(0):
                    return True
                if self.I.naming and ox.vn is not None and ox.vn == oy.vn:
                    return True
            return None
        if gx != gy:
            if "ref" in (x.k, y.k) and "sym" in (x.k, y.k):
                return False
            return False
        if self.I.naming and "sym" in (x.k, y.k) and gx == "n":
            r = self.ex_equal(self.as_sym(x, None, st), self.as_sym(y, None, st))
            if r is not None:
                return r
        if x.k == "sym" and x.p.cls and y.k in ("int", "bool"):
            if not (x.p.cls & {"num"}) and not (x.p.cls & {"add", "mul", "pow", "other"}):
                return False
        return None

    def in_text(self, s, x):
        """is x in the text of an expression that is known"""
        if x.k == "str" and isinstance(s, StrD) and s.kind == "schur" and s.p is not None and x.p in ("q", "S"):
            return x.p == "S"
        if x.k != "str" or not isinstance(x.p, str) or not isinstance(s, StrD) or s.kind != "expr" or s.p is None or not known(s.p):
            return None
        if any(at[0] == "S" and not isinstance(at[1], tuple) for m, _ in s.p.val for at, _ in m):
            return None
        names = {at[1] for m, _ in s.p.val for at, _ in m if at[0] == "q"}
        if x.p == "q":
            return bool(names)
        if x.p == "S":
            return any(at[0] == "S" for m, _ in s.p.val for at, _ in m)
        return None

    def contains(self, cont, x, node, st):
        if cont.k == "ref":
            o = self.I.get(st, cont.p)
            if o.kind == "inst":
                f = self.I.class_lookup(o.cls, "__contains__", st)
                if f is not None:
                    return self.I.call(self.I.bind_method(f, cont, o.cls), [frozenset([x])], {}, node, st)
                if self.I.class_lookup(o.cls, "__iter__", st) is None and self.I.class_lookup(o.cls, "__getitem__", st) is None:
                    return None
                return ABool(None)
            if o.kind == "dict":
                self.I.ctx.dloads.add(cont.p)
                if o.flags:
                    self.I.ev("dload", node, (o.flags, self.shape_labels(frozenset([x]), st), "in"))
                ok, c = const_of(frozenset([x]))
                if ok and not o.elem and not o.summary:
                    return ABool(("k", c) in o.fields)
                return ABool(None)
            if o.items is not None:
                ok, c = const_of(frozenset([x]))
                if ok:
                    cs = [const_of(v) for v in o.items]
                    if all(z[0] for z in cs):
                        return ABool(any(z[1] == c for z in cs))
                if all(len(v) == 1 for v in o.items) and not o.summary:
                    rs = [self.equal(x, next(iter(v)), st) for v in o.items]
                    if any(r is True for r in rs):
                        return ABool(True)
                    if all(r is False for r in rs):
                        return ABool(False)
            if o.len is not None and o.len == Lin(0):
                return ABool(False)
            return ABool(None)
        if cont.k == "extobj" and cont.p[0] == "__dict__":
            return self.idict_method(cont, "__contains__", [frozenset([x])], {}, node, st)
        if cont.k == "str" and self.I.naming:
            r = self.in_text(cont.p, x)
            if r is not None:
                return ABool(r)
        if cont.k == "str":
            if x.k not in ("str", "top", "extobj"):
                return None
            if isinstance(cont.p, str) and x.k == "str" and isinstance(x.p, str):
                return ABool(x.p in cont.p)
            return ABool(None)
        if cont.k in ("top", "extobj", "ext"):
            return ABool(None)
        if cont.k == "sym":
            return None
        return None

    def in_filter(self, a, b, st):
        """x in (const, ...): split the atoms of x"""
        ki = self.known_items(b, st)
        if ki is None or not all(const_of(v)[0] for v in ki):
            return None
        cs = [const_of(v)[1] for v in ki]
        yes, no = EMPTY, EMPTY
        for x in a:
            ok, c = const_of(frozenset([x]))
            if ok:
                if any(c == d and type(c) == type(d) for d in cs):
                    yes |= frozenset([x])
                else:
                    no |= frozenset([x])
            else:
                rs = [self.equal(x, next(iter(v)), st) for v in ki]
                if not all(r is False for r in rs):
                    yes |= frozenset([x])
                if not any(r is True for r in rs):
                    no |= frozenset([x])
        return yes, no

    def in_ints(self, a, b, st):
        """the states in which one number is, or is not, among some constants"""
        if len(a) != 1:
            return None
        L = lin_of(next(iter(a)))
        ki = self.known_items(b, st)
        if L is None or L.is_const() or not ki:
            return None
        cs = [const_of(v) for v in ki]
        if not all(ok and isinstance(c, int) for ok, c in cs):
            return None
        cs = sorted({int(c) for _, c in cs})
        hits = [s for s in (self.assume_cmp(st, ("eq", L - Lin(c)), True) for c in cs) if s is not None]
        neg = st
        for c in cs:
            neg = neg and self.assume_cmp(neg, ("eq", L - Lin(c)), False)
        pos = None
        if len(hits) == 1:
            pos = hits[0]
        elif hits:
            pos = self.assume_cmp(st, ("ge", L - Lin(cs[0])), True)
            pos = pos and self.assume_cmp(pos, ("ge", Lin(cs[-1]) - L), True)
        return pos, neg

    def eq_filter(self, a, b, op, ln, rn, st, I):
        """states for a == b / a != b with narrowing of plain operands; None to fall back"""
        isop = isinstance(op, (ast.Is, ast.IsNot))
        I._exactcmp = False
        if len(a) == 1 and len(b) == 1:
            x, = a
            y, = b
            if x.k == "top" or y.k == "top":
                return None
            if any(z.k == "ref" and I.get(st, z.p).kind == "inst" for z in (x, y)) and not isop:
                return None
            lx, ly = lin_of(x), lin_of(y)
            if lx is not None and ly is not None and not isop:
                t = self.assume_cmp(st, ("eq", lx - ly), True)
                f = self.assume_cmp(st, ("eq", lx - ly), False)
                I._exactcmp = True
                return t, f
        # filter the non-constant side by the constant side
        for v, c, vn in ((a, b, ln), (b, a, rn)):
            ok, cv = const_of(c)
            if not ok:
                continue
            yes, no = EMPTY, EMPTY
            cat, = c
            fallback = False
            for x in v:
                if x.k == "top":
                    yes |= frozenset([x])
                    no |= frozenset([x])
                    continue
                if x.k == "ref" and I.get(st, x.p).kind == "inst" and not isop:
                    if cv is None and I.class_lookup(I.get(st, x.p).cls, "__eq__", st) is None:
                        no |= frozenset([x])
                        continue
                    return None
                if isop and cv is not None and not isinstance(cv, bool):
                    return None
                r = self.equal(x, cat, st)
                if isop and isinstance(cv, bool) and x.k != "bool":
                    r = False
                if r is True:
                    yes |= frozenset([x])
                elif r is False:
                    no |= frozenset([x])
                else:
                    if x.k == "bool" and isinstance(x.p, tuple):
                        return None
                    if x.k == "bool" and isinstance(cv, bool):
                        yes |= frozenset([Atom("bool", cv, x.l)])
                        no |= frozenset([Atom("bool", not cv, x.l)])
                    elif x.k == cat.k:
                        yes |= frozenset([cat.with_l(x.l)])
                        no |= frozenset([x])
                    else:
                        yes |= frozenset([x])
                        no |= frozenset([x])
            t = f = None
            if yes:
                t = st.copy()
                if yes != v:
                    I.narrow(vn, yes, t)
                xs = [x for x in yes]
                if len(v) == 1 and len(xs) == 1 and lin_of(next(iter(v))) is not None and isinstance(cv, int):
                    pass
            if no:
                f = st.copy()
                if no != v:
                    I.narrow(vn, no, f)
            return t, f
        return None

    # ------------------------------------------------------------------ arithmetic
    def neg(self, v, node, st):
        out = EMPTY
        bad = []
        for a in v:
            if a.k == "int":
                l = lin_of(a)
                out = av_join(out, AInt(-l if l is not None else None, a.l))
            elif a.k == "bool":
                out = av_join(out, AInt(None, a.l))
            elif a.k == "float":
                out = av_join(out, mk("float", None, a.l))
            elif a.k == "sym":
                p = a.p
                out = av_join(out, ASym(Sym(self.scaled_cls(p.cls), p.form, poly_mul(p.val, poly_const(-1)), p.part), a.l))
            elif a.k == "ref" and self.I.get(st, a.p).kind == "inst":
                o = self.I.get(st, a.p)
                f = self.I.class_lookup(o.cls, "__neg__", st)
                if f is None:
                    bad.append(a)
                else:
                    out = av_join(out, self.I.call(self.I.bind_method(f, a, o.cls), [], {}, node, st))
            elif a.k in ("top", "extobj"):
                out = av_join(out, TOP)
            else:
                bad.append(a)
        if bad:
            self.I.synth(st, node, "TypeError", "bad operand type for unary -: %s" % self.I.tname(bad[0], st), partial=bool(out))
        return out

    def scaled_cls(self, cls):
        out = set()
        for c in cls:
            if c == "num":
                out.add("num")
            elif c == "add":
                out |= {"add", "mul"}
            elif c == "mul":
                out |= {"mul", "schur", "q", "var", "add", "pow", "other"}
            else:
                out.add("mul")
        return frozenset(out)

    def invert(self, v, node, st):
        return AInt(None, av_labels(v))

    def binop_prim(self, name, x, y, node, st):
        """primitive operands; None = TypeError (or operand is an instance: not handled)"""
        I = self.I
        l = (x.l | y.l)
        lc = l - {"ordelem"} if name in ("add", "mul") else l
        num = ("int", "bool", "float")
        if x.k in ("extobj", "ext", "top") or y.k in ("extobj", "ext", "top"):
            if x.k == "sym" and y.k == "sym":
                pass
            return mk("top", None, l)
        if x.k in num and y.k in num:
            return av_add_labels(self.arith(name, x, y, node, st), lc)
        if x.k == "sym" and y.k in num + ("sym",) or y.k == "sym" and x.k in num:
            return av_add_labels(self.sym_op(name, x, y, node, st), lc)
        if x.k == "str":
            if name == "add" and y.k == "str":
                return self.concat(x, y, l)
            if name == "mul" and y.k in ("int", "bool"):
                okx, oky = isinstance(x.p, str), const_of(frozenset([y]))[0]
                if okx and oky and abs(const_of(frozenset([y]))[1]) < 64:
                    return AStr(x.p * const_of(frozenset([y]))[1], l)
                return AStr(None, l)
            if name == "mod":
                self.str_of(frozenset([y]), node, st)
                labs = l | self.shape_labels(frozenset([y]), st)
                if isinstance(x.p, str):
                    return self.percent(x.p, y, labs, node, st)
                return AStr(None, labs)
            return None
        if y.k == "str":
            if name == "mul" and x.k in ("int", "bool"):
                return AStr(None, l)
            return None
        if x.k == "ref" or y.k == "ref":
            return self.seq_op(name, x, y, l, node, st)
        if x.k == "uniontype" or y.k == "uniontype" or (name == "or" and "cls" in (x.k, y.k)):
            return mk("uniontype", (x, y))
        return None

    def arith(self, name, x, y, node, st):
        if "float" in (x.k, y.k):
            return mk("float")

        def L(a):
            if a.k == "int":
                return a.p
            if a.k == "bool" and a.p in (True, False):
                return Lin(int(a.p))
            return None
        a, b = L(x), L(y)
        if name == "truediv":
            if b is not None and b == Lin(0):
                self.I.synth(st, node, "ZeroDivisionError", "division by zero")
            return mk("float", ("div", a, b) if a is not None and b is not None else None)
        if a is None or b is None:
            return AInt(None)
        if name == "add":
            return AInt(a + b)
        if name == "sub":
            return AInt(a - b)
        if name == "mul":
            if a.is_const():
                return AInt(b.scale(a.c))
            if b.is_const():
                return AInt(a.scale(b.c))
            return AInt(None)
        if name in ("floordiv", "mod"):
            if b.is_const() and b.c > 0:
                c = b.c
                q = self.floordiv(a, c, node, st)
                if q is None:
                    return AInt(None)
                return AInt(q) if name == "floordiv" else AInt(a - q.scale(c))
            if b.is_const() and b.c == 0:
                self.I.synth(st, node, "ZeroDivisionError", "division by zero")
            return AInt(None)
        if name == "pow":
            if a.is_const() and b.is_const() and 0 <= b.c < 64:
                return AInt(a.c ** b.c)
            if b.is_const() and b.c >= 0:
                return AInt(None)
            return av_join(AInt(None), EMPTY)
        if name in ("rshift",) and b.is_const() and 0 <= b.c < 30:
            q = self.floordiv(a, 2 ** b.c, node, st)
            return AInt(q)
        if name == "lshift" and b.is_const() and 0 <= b.c < 30:
            return AInt(a.scale(2 ** b.c))
        if name == "and" and b.is_const() and b.c == 1:
            q = self.floordiv(a, 2, node, st)
            return AInt(a - q.scale(2))
        return AInt(None)

    def floordiv(self, a, c, node, st):
        """a // c, exact where a is c*stuff + const"""
        if all(k % c == 0 for _, k in a.t):
            return Lin(a.c // c, [(s, k // c) for s, k in a.t])
        # split off the divisible part
        div = Lin(0, [(s, k // c) for s, k in a.t if k % c == 0])
        rest = Lin(a.c, [(s, k) for s, k in a.t if k % c != 0])
        s = self.I.fresh(st, node, "div%r" % (rest,))
        d = Lin.sym(s)
        cons = st.cons.add_ge(rest - d.scale(c))
        cons = cons and cons.add_ge(d.scale(c) + (c - 1) - rest)
        if cons is not None:
            st.cons = cons
        return div + d

    def seq_op(self, name, x, y, l, node, st):
        I = self.I
        ox = I.get(st, x.p) if x.k == "ref" else None
        oy = I.get(st, y.p) if y.k == "ref" else None
        if (ox is not None and ox.kind == "inst") or (oy is not None and oy.kind == "inst"):
            return None
        if (ox is not None and ox.kind == "opaque") or (oy is not None and oy.kind == "opaque"):
            return mk("top", None, l)
        if name == "add" and ox is not None and oy is not None:
            if ox.kind == oy.kind and ox.kind in ("list", "tuple"):
                ordt = ox.ordt or oy.ordt
                if ox.items is not None and oy.items is not None and len(ox.items) + len(oy.items) <= 24:
                    its = ox.items + oy.items
                    return I.new_list(st, node, its, kind=ox.kind, vn=self.vn_of_items(its, "list", st), ordt=ordt, l=l, tag="cat")
                la = Lin(len(ox.items)) if ox.items is not None else ox.len
                lb = Lin(len(oy.items)) if oy.items is not None else oy.len
                return I.new_list(st, node, None, av_join(ox.elems(), oy.elems()),
                                  la + lb if la is not None and lb is not None else None, kind=ox.kind, ordt=ordt, l=l, tag="cat")
            return None
        if name == "mul":
            seq, n, o = (x, y, ox) if ox is not None else (y, x, oy)
            if o.kind in ("list", "tuple") and n.k in ("int", "bool"):
                L = lin_of(n)
                if o.items is not None and L is not None and L.is_const() and 0 <= L.c * len(o.items) <= 24:
                    return I.new_list(st, node, o.items * L.c, kind=o.kind, l=l, tag="rep")
                ln = None
                ol = Lin(len(o.items)) if o.items is not None else o.len
                if ol is not None and L is not None:
                    if ol == Lin(1):
                        ln = L if st.cons.entails_ge(L) else Lin(0) if st.cons.entails_ge(-L) else None
                return I.new_list(st, node, None, o.elems(), ln, kind=o.kind, l=l, tag="rep")
            return None
        if name in ("sub", "or", "and", "xor") and ox is not None and oy is not None and \
                ox.kind in ("set", "frozenset") and oy.kind in ("set", "frozenset"):
            if name == "sub":
                r = self.set_minus(x, frozenset([y]), node, st)
                if r is not None:
                    return r
                return I.alloc(st, node, Obj("set", None, None, None, ox.elems(), None), "op")
            e = ox.elems() if name == "and" else av_join(ox.elems(), oy.elems())
            return I.alloc(st, node, Obj("set", None, None, None, e, None), "op")
        if name == "or" and ox is not None and oy is not None and ox.kind == "dict" and oy.kind == "dict":
            e = av_join(ox.elem, oy.elem)
            for v in list(ox.fields.values()) + list(oy.fields.values()):
                e = av_join(e, v)
            return I.alloc(st, node, Obj("dict", None, {}, None, e, None, keyl=av_join(ox.keyl, oy.keyl)), "op")
        return None

    # ------------------------------------------------------------------ strings
    def str_of(self, v, node, st, how="str"):
        """AV of str(v)"""
        I = self.I
        out = EMPTY
        for a in v:
            l = a.l
            if a.k == "str":
                out = av_join(out, frozenset([a]))
            elif a.k == "int":
                L = lin_of(a)
                if L is not None and L.is_const():
                    out = av_join(out, AStr(str(L.c), l))
                elif L is not None:
                    out = av_join(out, mk("str", StrD("tmpl", (L,)), l))
                else:
                    out = av_join(out, AStr(None, l))
            elif a.k == "bool" and a.p in (True, False):
                out = av_join(out, AStr(str(a.p), l))
            elif a.k == "none":
                out = av_join(out, AStr("None", l))
            elif a.k == "sym":
                out = av_join(out, self.text_of_sym(a, st))
            elif a.k == "ref":
                o = I.get(st, a.p)
                if o.kind == "inst":
                    names = ("__str__", "__repr__") if how == "str" else ("__repr__",)
                    done = False
                    for nm in names:
                        f = I.class_lookup(o.cls, nm, st)
                        if f is not None:
                            r = I.call(I.bind_method(f, a, o.cls), [], {}, node, st)
                            out = av_join(out, r)
                            done = True
                            break
                    if not done:
                        out = av_join(out, AStr(None, l | self.I.nds("object addresses", node)))
                elif o.kind in ("list", "tuple"):
                    kinds = av_kinds(o.elems())
                    for e in o.elems():
                        if e.k == "ref":
                            oe = I.get(st, e.p)
                            if oe.kind == "inst":
                                self.str_of(frozenset([e]), node, st, "repr")
                    labs = l | self.shape_labels(v, st) | (self.I.nds("set order", node) if o.ordt else EMPTY)
                    labs = labs - {"ordelem"} if not o.ordt else labs
                    if o.kind == "list":
                        if kinds <= {"int", "bool", "sym", "float"}:
                            part = o.vn if o.vn is not None else ("part?",)
                        elif kinds <= {"ref"}:
                            part = ("pair?",)
                        else:
                            part = None
                        out = av_join(out, mk("str", StrD("listtext", part), labs))
                    else:
                        out = av_join(out, AStr(None, labs))
                elif o.kind in ("set", "dict", "frozenset"):
                    out = av_join(out, AStr(None, l | self.shape_labels(v, st) | (
                        self.I.nds("set order", node) if o.kind != "dict" else EMPTY)))
                else:
                    out = av_join(out, AStr(None, l))
            elif a.k == "extobj" and a.p[0] == "object" or a.k in ("func", "bound", "lambda"):
                out = av_join(out, AStr(None, l | I.nds("object addresses", node)))
            else:
                out = av_join(out, AStr(None, l))
        return out

    def text_of_sym(self, a, st):
        p = a.p
        if p.val is not None and len(p.val) == 1:
            (m, c), = p.val
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                at = m[0][0]
                if isinstance(at, tuple) and at[0] == "q":
                    return AStr(at[1], a.l)
        if p.cls == {"schur"}:
            if self.I.naming and p.val is not None and p.part in (None, ("part?",), ("pair?",), ()):
                return mk("str", StrD("schur", ("named", p.val, p.part or ("part?",))), a.l)
            return mk("str", StrD("schur", p.part), a.l)
        return mk("str", StrD("expr", p), a.l)

    def build_str(self, parts, labs):
        """concatenate f-string parts: python strings and AVs"""
        flat = []
        ok = True
        special = None
        for p in parts:
            if isinstance(p, str):
                flat.append(p)
                continue
            if len(p) == 1:
                a, = p
                if a.k == "str":
                    if isinstance(a.p, str):
                        flat.append(a.p)
                        continue
                    if isinstance(a.p, StrD):
                        if a.p.kind == "tmpl":
                            flat.extend(a.p.p)
                            continue
                        special = a.p
                        flat.append(a.p)
                        continue
            flat.append("?")
            ok = False
        return frozenset([Atom("str", self.join_parts(flat), labs)])

    def join_parts(self, flat):
        """flat: str | Lin | StrD | '?' -> str payload"""
        out = []
        for p in flat:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif isinstance(p, str) and p == "":
                continue
            else:
                out.append(p)
        if not out:
            return ""
        if all(isinstance(p, str) for p in out):
            return "".join(out)
        sp = [p for p in out if isinstance(p, StrD)]
        if len(sp) == 1:
            i = out.index(sp[0])
            if sp[0].kind == "listtext" and i == 1 and out[0] == "S" and len(out) == 2:
                return StrD("schur", sp[0].p)
            if len(out) == 1:
                return sp[0]
            if sp[0].kind in ("expr", "schur"):
                return None
        if sp:
            if isinstance(out[0], str) and out[0].startswith(("S[", "Sf")):
                return StrD("schur", None)
            return StrD("tmpl", tuple("?" if isinstance(p, StrD) else p for p in out))
        if isinstance(out[0], str) and (out[0] in ("S[", "Sf") or out[0].startswith(("S[", "Sf"))) and isinstance(out[-1], str) \
                and out[-1].endswith(("]", "g")):
            return StrD("schur", ("part?",))
        return StrD("tmpl", tuple(out))

    def concat(self, x, y, l):
        def parts(a):
            if isinstance(a.p, str):
                return [a.p]
            if isinstance(a.p, StrD):
                return list(a.p.p) if a.p.kind == "tmpl" else [a.p]
            return [None]
        ps = parts(x) + parts(y)
        if None in ps:
            if isinstance(x.p, str) and x.p.startswith(("S[", "Sf")):
                return mk("str", StrD("schur", ("part?",)), l)
            if isinstance(x.p, StrD) and x.p.kind == "schur":
                return mk("str", x.p, l)
            return AStr(None, l)
        return mk("str", self.join_parts(ps), l)

    def percent(self, fmt, y, labs, node, st):
        import re
        toks = re.split(r"(%[sdri%])", fmt)
        items = self.known_items(frozenset([y]), st) if y.k == "ref" and self.I.get(st, y.p).kind == "tuple" else [frozenset([y])]
        if items is None:
            return AStr(None, labs)
        parts = []
        i = 0
        for t in toks:
            if t == "%%":
                parts.append("%")
            elif t in ("%s", "%d", "%r", "%i"):
                if i >= len(items):
                    self.I.synth(st, node, "TypeError", "not enough arguments for format string")
                parts.append(self.str_of(items[i], node, st))
                i += 1
            elif "%" in t:
                return AStr(None, labs)
            else:
                parts.append(t)
        return self.build_str(parts, labs)

    def str_method(self, a, name, args, kw, node, st):
        I = self.I
        l = a.l
        for x in args:
            if not isinstance(x, tuple):
                l = l | av_labels(x)
        s = a.p
        cargs = [const_of(x) if not isinstance(x, tuple) else (False, None) for x in args]
        if name == "join" and args:
            x = args[0]
            if isinstance(x, tuple):
                return AStr(None, l)
            labs = l | self.shape_labels(x, st)
            if self.unordered(x, st):
                labs = labs | self.I.nds("set order", node)
            ki = self.known_items(x, st)
            if ki is not None and isinstance(s, str):
                parts = []
                for i, e in enumerate(ki):
                    if i:
                        parts.append(s)
                    bad = [q for q in e if q.k not in ("str", "top", "extobj")]
                    if bad:
                        I.synth(st, node, "TypeError", "sequence item: expected str, %s found" % I.tname(bad[0], st),
                                partial=len(bad) < len(e))
                    parts.append(e)
                return self.build_str(parts, labs)
            e = self.iter_elem(x, node, st)
            bad = [q for q in e if q.k not in ("str", "top", "extobj")]
            if bad:
                I.synth(st, node, "TypeError", "sequence item: expected str, %s found" % I.tname(bad[0], st), partial=True)
            if s == ",":
                return mk("str", StrD("csv", None), labs)
            return AStr(None, labs)
        if isinstance(s, str) and all(ok for ok, _ in cargs) and name in (
                "replace", "startswith", "endswith", "strip", "lstrip", "rstrip", "upper", "lower", "count", "find", "isdigit",
                "removeprefix", "removesuffix"):
            try:
                r = getattr(s, name)(*[c for _, c in cargs])
            except Exception:
                return AStr(None, l)
            return av_add_labels(self.const_av(r), l)
        if name == "translate":
            tb = [x for x in (args[0] if args else EMPTY)]
            tag = None
            for x in tb:
                if x.k == "extobj" and x.p[0] == "transtable":
                    tag = x.p[1]
            if isinstance(s, str) and tag is not None and tag is not False:
                return AStr(s.translate(dict(tag)), l)
            if isinstance(s, StrD) and s.kind in ("expr", "schur", "listtext", "schurlist", "exprlist"):
                return mk("str", s, l)
            return mk("str", None, l)
        if name == "replace":
            if isinstance(s, StrD):
                o1 = cargs[0][1] if cargs and cargs[0][0] else None
                o2 = cargs[1][1] if len(cargs) > 1 and cargs[1][0] else None
                if s.kind in ("expr", "schur"):
                    if o1 == "S" and o2 == "":
                        return mk("str", no_s(s), l)
                    if (o1, o2) in ((" ", ""), ("^", "**"), ("**", "^")):
                        return mk("str", s, l)
                    if o1 in ("[", "]", ",", "f", "j", "g"):
                        return mk("str", s, l)
                    if s.kind == "expr" and I.naming and o1 in ("q1", "q2") and o2 in ("q", "q1", "q2") and s.p.val is not None:
                        return mk("str", StrD("expr", s.p.rep(val=renamed(s.p.val, o1, o2))), l)
                if s.kind == "listtext" and (o1, o2) == (" ", ""):
                    return mk("str", s, l)
                if s.kind in ("schurlist", "exprlist") and o1 == " ":
                    return mk("str", s, l)
            if s is None:
                return AStr(None, l)
            if isinstance(s, StrD) and s.kind == "tmpl":
                if cargs and all(ok for ok, _ in cargs) and all(isinstance(c, str) for _, c in cargs):
                    return mk("str", StrD("tmpl", tuple(p.replace(*[c for _, c in cargs]) if isinstance(p, str) and p != "?" else p
                                                        for p in s.p)), l)
            return AStr(None, l)
        if name in ("startswith", "endswith"):
            if name == "startswith" and cargs and cargs[0][0] and isinstance(s, StrD):
                c = cargs[0][1]
                if s.kind == "schur" and isinstance(c, str) and c:
                    if c[0] == "S":
                        return ABool(True if len(c) == 1 else None, l)
                    return ABool(False, l)
                if s.kind == "expr" and s.p is not None and c == "S":
                    if not (s.p.cls & {"schur", "add", "mul", "pow", "other"}):
                        return ABool(False, l)
                    if s.p.cls == {"schur"}:
                        return ABool(True, l)
                if s.kind == "expr" and s.p is not None and c == "q":
                    if s.p.cls <= {"schur", "num"}:
                        return ABool(False, l)
                    if s.p.cls == {"q"}:
                        return ABool(True, l)
            return ABool(None, l)
        if name == "__contains__" and self.I.naming and len(args) == 1 and len(args[0]) == 1:
            return ABool(self.in_text(s, next(iter(args[0]))), l)
        if name in ("isdigit", "isalpha", "isnumeric", "isidentifier", "__contains__", "isspace"):
            return ABool(None, l)
        if name in ("count", "find", "index", "rfind", "__len__"):
            return AInt(None, l)
        if name in ("split", "splitlines", "rsplit"):
            if isinstance(s, str) and all(ok for ok, _ in cargs):
                return I.new_list(st, node, [AStr(p, l) for p in getattr(s, name)(*[c for _, c in cargs])], tag="split")
            return I.new_list(st, node, None, AStr(None, l), None, tag="split")
        if name == "format":
            labs = l
            for x in args:
                if not isinstance(x, tuple):
                    labs = labs | self.shape_labels(x, st)
            if isinstance(s, str) and not kw:
                import re
                toks = re.split(r"(\{\d*\})", s)
                parts = []
                i = 0
                for t in toks:
                    m = re.fullmatch(r"\{(\d*)\}", t)
                    if m:
                        j = int(m.group(1)) if m.group(1) else i
                        i += 1
                        if j >= len(args) or isinstance(args[j], tuple):
                            return AStr(None, labs)
                        parts.append(self.str_of(args[j], node, st))
                    elif "{" in t.replace("{{", "") or "}" in t.replace("}}", ""):
                        return AStr(None, labs)
                    else:
                        parts.append(t.replace("{{", "{").replace("}}", "}"))
                return self.build_str(parts, labs)
            for v in kw.values():
                if not isinstance(v, tuple):
                    labs = labs | self.shape_labels(v, st)
            return AStr(None, labs)
        if isinstance(s, StrD) and name in ("strip", "lstrip", "rstrip"):
            if s.kind in ("expr", "schur", "listtext", "schurlist", "exprlist") and not args:
                return mk("str", s, l)
            if s.kind in ("expr", "schur") and cargs and cargs[0][0] and cargs[0][1] == "S" and name == "lstrip":
                return mk("str", no_s(s), l)
        if name == "removeprefix" and isinstance(s, StrD) and s.kind in ("expr", "schur") and cargs and cargs[0][0] and cargs[0][1] == "S":
            return mk("str", no_s(s), l)
        if name == "encode":
            return mk("extobj", ("bytes", None), l)
        return AStr(None, l)

    # ------------------------------------------------------------------ sympy
    def sym_args(self, a, node, st):
        p = a.p
        I = self.I
        if p.cls and p.cls <= {"num", "schur", "q", "var"}:
            return I.new_list(st, node, [], kind="tuple", tag="args", l=a.l)
        its = val_args(p)
        if its is not None:
            return I.new_list(st, node, [ASym(x, a.l) for x in its], kind="tuple", tag="args")
        form = {"mono": "mono", "sum": "mono" if p.cls == {"add"} else "sum", "unk": "unk", "unexp": "unk"}[p.form]
        e = ASym(Sym(A, form, None, p.part), a.l)
        return I.new_list(st, node, None, e, None, kind="tuple", tag="args", vn=("args", p.val) if p.val is not None else None)

    def free_symbols(self, a, node, st):
        p = a.p
        I = self.I
        if p.val is not None:
            atoms = []
            ok = True
            for m, c in p.val:
                for at, n in m:
                    if isinstance(at, tuple) and at[0] in ("q", "S"):
                        if at not in atoms:
                            atoms.append(at)
                    else:
                        ok = False
            if ok:
                its = []
                for at in sorted(atoms, key=repr):
                    its.append(ASym(Sym(["q" if at[0] == "q" else "schur"], "mono", poly_atom(at),
                                        () if at[0] == "q" else at[1] if isinstance(at[1], tuple) and at[1] else ("part?",)), a.l))
                return I.alloc(st, node, Obj("set", None, None, tuple(its), EMPTY, Lin(len(its))), "free")
        cls = {"schur", "q", "var"}
        if p.cls and p.cls <= {"num"}:
            return I.alloc(st, node, Obj("set", None, None, (), EMPTY, Lin(0)), "free")
        part = p.part if p.part != () else ("part?",)
        e = ASym(Sym(["schur"], "mono", None, part), a.l)
        e = av_join(e, ASym(Sym(["q"], "mono", None, ()), a.l))
        return I.alloc(st, node, Obj("set", None, None, None, e, None), "free")

    def as_sym(self, a, node, st):
        """(Sym, labels) of an atom used as a sympy operand"""
        if a.k == "sym":
            return a.p
        if a.k in ("int", "bool", "float"):
            L = lin_of(a)
            if a.k == "bool" and a.p in (True, False):
                L = Lin(int(a.p))
            v = None
            if L is not None and L.is_const():
                v = poly_const(L.c)
            elif L is not None:
                v = poly_atom(("n", L))
            if a.k == "float" and isinstance(a.p, Fraction):
                v = poly_const(a.p)
            return Sym(["num"], "mono", v, ())
        return None

    def u(self, node, tag=""):
        return poly_atom(("u", node._nid, tag))

    def sym_op(self, name, x, y, node, st):
        r = self.sym_op1(name, x, y, node, st)
        if self.I.naming:
            r = frozenset(Atom("sym", refine(a.p), a.l) if a.k == "sym" else a for a in r)
        if self.I.naming and r and any(a.p.val is not None and has_u(a.p.val) for a in r if a.k == "sym"):
            r = frozenset(Atom("sym", a.p.rep(val=None), a.l) if a.k == "sym" and a.p.val is not None and has_u(a.p.val)
                          else a for a in r)
        return r

    def sym_op1(self, name, x, y, node, st):
        p, q = self.as_sym(x, node, st), self.as_sym(y, node, st)
        pv = p.val if p.val is not None else self.u(node, "l")
        qv = q.val if q.val is not None else self.u(node, "r")
        part = part_join(p.part, q.part)
        pn, qn = p.cls == {"num"}, q.cls == {"num"}
        if name in ("add", "sub"):
            v = poly_add(pv, qv, 1 if name == "add" else -1)
            if v is None:
                v = None
            cls = {"num"} if pn and qn else A
            if v is not None and poly_is_const(v) is not None:
                cls = {"num"}
            if poly_is_const(pv) == 0 and p.val is not None and name == "add":
                return ASym(q)
            if poly_is_const(qv) == 0 and q.val is not None:
                return ASym(p)
            return ASym(Sym(cls, "mono" if cls == {"num"} else form_add(p.form, q.form), v, part))
        if name == "mul":
            v = poly_mul(pv, qv)
            cls = {"num"} if pn and qn else A
            if (poly_is_const(pv) == 0 and p.val is not None) or (poly_is_const(qv) == 0 and q.val is not None):
                return ASym(Sym(["num"], "mono", poly_const(0), ()))
            if poly_is_const(pv) == 1 and p.val is not None:
                return ASym(q)
            if poly_is_const(qv) == 1 and q.val is not None:
                return ASym(p)
            return ASym(Sym(cls, form_mul(p.form, q.form, pn, qn), v, part))
        if name == "truediv":
            c = poly_is_const(qv) if q.val is not None else None
            if c == 0:
                return ASym(Sym(A, "unk", None, part))
            if c is not None:
                from fractions import Fraction
                v = poly_mul(pv, poly_const(Fraction(1) / c))
                return ASym(Sym({"num"} if pn else A, p.form, v, part))
            v = None
            if len(qv) == 1:
                (m, cc), = qv
                if all(isinstance(a, tuple) for a, _ in m):
                    inv = frozenset([(tuple((a, -n) for a, n in m), 1 / cc)])
                    v = poly_mul(pv, inv)
            form = "unk" if not (qn) else p.form
            return ASym(Sym({"num"} if pn and qn else A, form, v, part))
        if name == "pow":
            n = poly_is_const(qv) if q.val is not None else None
            if n is not None and n.denominator == 1 and 0 <= n <= (12 if self.I.naming or len(pv) == 1 else 4):
                v = poly_const(1)
                for _ in range(int(n)):
                    v = poly_mul(v, pv) if v is not None else None
                if n == 1:
                    return ASym(p)
                if n == 0:
                    return ASym(Sym(["num"], "mono", poly_const(1), ()))
                return ASym(Sym({"num"} if pn else A, p.form if p.form == "mono" else ("unexp" if p.form == "sum" else p.form), v, part))
            if self.I.naming and n is not None and n.denominator == 1 and -12 <= n < 0 and len(pv) == 1 and not pn:
                (m, cc), = pv
                if all(isinstance(z, tuple) for z, _ in m):
                    return ASym(Sym(A, "mono", frozenset([(tuple((z, c * int(n)) for z, c in m), cc ** int(n))]), part))
            if pn and qn:
                return ASym(Sym(["num"], "mono", poly_atom(("pow", pv, qv)), ()))
            if self.I.naming and pv == poly_const(1):
                return ASym(Sym(["num"], "mono", poly_const(1), ()))
            # q ** int: a power of the same parameters
            v = poly_atom(("pow", pv, qv))
            if len(pv) == 1:
                (m, cc), = pv
                if len(m) == 1 and atom_is_q(m[0][0]) and cc == 1:
                    v = poly_mul(poly_atom(m[0][0]), poly_atom(("pow-1", pv, qv))) if False else poly_atom(("pow", pv, qv))
            return ASym(Sym(A, "mono" if p.form == "mono" and qn else "unexp" if p.form == "sum" else "unk", v, part))
        return ASym(Sym(A, "unk", None, part))

    def sym_method(self, a, name, args, kw, node, st):
        I = self.I
        p = a.p
        l = a.l
        for x in args:
            if not isinstance(x, tuple):
                l = l | av_labels(x)
        if I.naming:
            r = self.ex_method(a, name, args, kw, node, st)
            if r is not None:
                return av_add_labels(r, l)
        if name == "expand":
            r = p if no_hint(args, kw) else self.expanded(p)
            return ASym(refine(r) if I.naming else r, l)
        if name == "func" and I.naming and len(p.cls) == 1 and p.cls <= {"add", "mul", "pow"}:
            kn = []
            for x in args:
                kn += [x] if not isinstance(x, tuple) else self.known_items(x[1], st) or [None]
            if len(kn) >= 2 and None not in kn:
                acc = kn[0]
                for x in kn[1:]:
                    acc = I.binop({"add": ast.Add(), "mul": ast.Mult(), "pow": ast.Pow()}[next(iter(p.cls))], acc, x, node, st)
                return av_add_labels(acc, l)
        if name in ("subs", "xreplace", "replace"):
            if name == "subs" and len(args) == 2:
                ok, c = const_of(args[1])
                if len(args[0]) == 1:
                    v, = args[0]
                    if v.k == "sym" and v.p.val is not None and p.val is not None and len(v.p.val) == 1 and ok and c == 0:
                        (m, cc), = v.p.val
                        if len(m) == 1 and cc == 1 and all(isinstance(at, tuple) and at[0] in ("q", "S")
                                                           for mm, _ in p.val for at, _ in mm):
                            nv = frozenset((mm, k) for mm, k in p.val if not any(at == m[0][0] for at, _ in mm))
                            cls = {"num"} if poly_is_const(nv) is not None else A
                            r = Sym(cls, p.form, nv, p.part)
                            return ASym(refine(r) if I.naming else r, l)
                if ok and isinstance(c, int):
                    return ASym(Sym(A, p.form, None, p.part), l)
            return ASym(Sym(A, "unk", None, None if p.part != () else ()), l)
        if name in ("simplify", "factor", "together", "cancel", "collect", "doit", "evalf", "nsimplify"):
            return ASym(Sym(A, regrouped(name, p) if name not in ("doit",) else p.form, p.val, p.part), l)
        if name in ("coeff", "as_independent", "diff"):
            return ASym(Sym(A, p.form, None, p.part), l)
        if name == "as_coefficients_dict":
            return I.alloc(st, node, Obj("dict", None, {}, None, ASym(Sym(["num"], "mono", None, ()), l), None,
                                         keyl=ASym(Sym(A, "mono", None, p.part), l)), "acd")
        if name in ("as_ordered_terms", "as_terms"):
            return I.new_list(st, node, None, ASym(Sym(A, "mono" if p.form in ("mono", "sum") else "unk", None, p.part), l), None, tag="terms")
        if name in ("has", "is_constant", "equals", "is_polynomial"):
            return ABool(None, l)
        if name == "func":
            return self.sym_func(args, node, st, l)
        if name in ("as_coeff_Mul", "as_base_exp", "as_coeff_mul", "as_two_terms"):
            e = ASym(Sym(A, p.form, None, p.part), l)
            return I.new_list(st, node, [e, e], kind="tuple", tag="pair")
        if name in ("as_expr", "copy"):
            return frozenset([a])
        if name in ("atoms",):
            return self.free_symbols(a, node, st)
        I.note("sympy-method", name, node)
        return ASym(Sym(A, "unk", None, None), l)

    def expanded(self, p):
        r = p.rep(form="mono" if p.form == "mono" else "sum")
        return refine(r) if self.I.naming else r

    def sym_fold(self, name, args, node, st):
        """Add(*xs) / Mul(*xs): the sum or product of all of them"""
        op = ast.Add() if name == "Add" else ast.Mult()
        acc = ASym(Sym(["num"], "mono", poly_const(0 if name == "Add" else 1), ()))
        for x in args:
            e = self.iter_elem(x[1], node, st) if isinstance(x, tuple) else x
            if not av_kinds(e) <= {"sym", "int", "bool", "float"}:
                return None
            if isinstance(x, tuple):
                e = frozenset(a.with_l(a.l - {"ordelem"}) for a in e)
                if av_kinds(e) <= {"int", "bool"}:
                    e = ASym(Sym(["num"], "mono", None, ()), av_labels(e))
                acc = self.b_sum([x[1] if not self.known_items(x[1], st) is None else self.I.new_list(st, node, None, e, None, tag="fold"), acc], {}, node, st) \
                    if name == "Add" else self.fold_mul(acc, e, node, st)
            else:
                acc = self.I.binop(op, acc, x, node, st)
        return acc

    def fold_mul(self, acc, e, node, st):
        for _ in range(5):
            n = av_join(acc, self.I.binop(ast.Mult(), acc, e, node, st))
            if n == acc:
                break
            acc = n
        return acc

    def sym_func(self, args, node, st, l):
        """expr.func(*args) / Add(*args) with unknown head"""
        part = ()
        for x in args:
            v = x[1] if isinstance(x, tuple) else x
            if isinstance(x, tuple):
                v = self.iter_elem(v, node, st)
            l = l | av_labels(v)
            l = l - {"ordelem"}
            for y in v:
                if y.k == "sym":
                    part = part_join(part, y.p.part)
                elif y.k in ("int", "bool", "float"):
                    pass
                elif y.k == "ref":
                    self.I.synth(st, node, "SympifyError", "cannot sympify", partial=True)
                else:
                    part = None
        return ASym(Sym(A, "unexp", None if self.I.naming else self.u(node, "func"), part), l)

    def ext_attr(self, a, name, node, st):
        full = a.p + "." + name
        for pre, why in NONDET.items():
            if full == pre:
                return mk("extobj", (full, None), self.I.nds(why, node))
        if full in ("numpy.pi", "math.pi", "math.inf"):
            return mk("float")
        if full == "sympy.S.Zero" or full == "sympy.S.One" or full == "sympy.S.Half":
            from fractions import Fraction
            c = {"Zero": 0, "One": 1, "Half": Fraction(1, 2)}[name]
            return ASym(Sym(["num"], "mono", poly_const(c), ()))
        return mk("ext", full, a.l)

    # ------------------------------------------------------------------ external calls
    def escape(self, args, kwargs, node, st, what):
        """arguments handed to code that is not analysed"""
        for v in list(args) + list(kwargs.values()):
            if isinstance(v, tuple):
                v = v[1]
            for a in v:
                if a.k == "ref":
                    o = self.I.get(st, a.p)
                    if o is not None and o.flags and o.kind in ("list", "dict", "set"):
                        self.I.note("escape", "%s passed to %s" % (o.kind, what), node)

    def call_ext(self, name, args, kwargs, node, st):
        I = self.I
        if name in I.watch:
            I.watch[name].append((list(args), dict(kwargs), st.copy()))
        if name in IO_CALLS:
            I.ev("io", node, (IO_CALLS[name], name))
        for pre, k in IO_PREFIX.items():
            if name.startswith(pre):
                I.ev("io", node, (k, name))
        nd = EMPTY
        for pre, why in NONDET.items():
            if name == pre or (pre.endswith(".") and name.startswith(pre)) or name.startswith(pre + "."):
                nd = self.I.nds(why, node)
        if name.startswith("builtins."):
            f = getattr(self, "b_" + name[9:], None) or getattr(self, "x_" + name.replace(".", "_"), None)
            if f is not None:
                r = f(args, kwargs, node, st)
                if I.lossy and name[9:] in ("len", "sum", "max", "min", "bool", "any", "all", "abs", "set", "frozenset"):
                    r = I.lose(r, st)
                return av_add_labels(r, nd)
            if name[9:] in EXC_NAMES:
                return mk("extobj", (name[9:], None))
            I.note("builtin", name, node)
            for v in list(args) + list(kwargs.values()):
                nd = nd | self.shape_labels(v[1] if isinstance(v, tuple) else v, st)
            return mk("top", None, nd)
        if name.startswith("object."):
            nm = name[7:]
            if nm == "__init__":
                return NONE
            if nm in ("__str__", "__repr__"):
                return AStr(None, self.I.nds("object addresses", node))
            if nm == "__new__":
                for a in (args[0] if args else EMPTY):
                    if a.k == "cls":
                        return I.alloc(st, node, Obj("inst", a.p, {}), a.p.name + ":raw")
                return TOP
            if nm == "__eq__":
                return ABool(None)
            if nm == "__hash__":
                return AInt(None, self.I.nds("object addresses", node))
            return TOP
        f = getattr(self, "x_" + name.replace(".", "_"), None)
        if f is not None:
            return av_add_labels(f(args, kwargs, node, st), nd)
        if name.startswith("sympy."):
            return self.sympy_call(name[6:], args, kwargs, node, st)
        if name.startswith(("typing.", "abc.")):
            if name in ("abc.abstractmethod", "typing.final", "typing.no_type_check", "typing.override"):
                return args[0] if args else TOP
            if name == "typing.cast":
                return args[1]
            return TOP
        labs = nd
        figs = I.figs_in(list(args) + list(kwargs.values()))
        if figs:
            I.figs_closed(st, figs)
        for v in list(args) + list(kwargs.values()):
            labs |= self.shape_labels(v[1] if isinstance(v, tuple) else v, st)
        I.note("external", name, node)
        I.ev("ext", node, (name,))
        self.escape(args, kwargs, node, st, name)
        if name.startswith(("pandas.", "csv.", "numpy.array", "numpy.asarray")):
            for v in list(args) + list(kwargs.values()):
                if self.unordered(v[1] if isinstance(v, tuple) else v, st):
                    labs = labs | I.nds("set order", node)
        for kk in ("matplotlib.", "numpy.", "pandas.", "sage.", "csv.", "pathlib.", "logging.", "threading."):
            if name.startswith(kk):
                return mk("extobj", (name, None), labs)
        return mk("top", None, labs)

    def call_deco(self, a, args, kwargs, node, st):
        kind = a.p[0]
        if kind == "lru":
            f = args[0]
            return frozenset(Atom("memo", Memo(x, self.I.ctx.loc(node))) if x.k in ("fn", "bm", "memo") else x for x in f)
        if kind == "wraps":
            return args[0]
        return TOP

    # functools
    def x_functools_lru_cache(self, args, kw, node, st):
        if args and any(a.k in ("fn", "bm") for a in args[0]):
            return self.call_deco(Atom("deco", ("lru",)), args, kw, node, st)
        return mk("deco", ("lru",))

    def x_functools_cache(self, args, kw, node, st):
        return self.call_deco(Atom("deco", ("lru",)), args, kw, node, st)

    def x_functools_wraps(self, args, kw, node, st):
        return mk("deco", ("wraps",))

    def x_functools_partial(self, args, kw, node, st):
        out = EMPTY
        for a in args[0]:
            out |= mk("partial", (a, tuple(x for x in args[1:] if not isinstance(x, tuple)),
                                  tuple(sorted((k, v) for k, v in kw.items()))))
        return out

    def x_functools_cached_property(self, args, kw, node, st):
        return frozenset(Atom("prop", a) for a in args[0])

    def x_functools_reduce(self, args, kw, node, st):
        f, it = args[0], args[1]
        e = self.iter_elem(it, node, st)
        acc = args[2] if len(args) > 2 else e
        if not e:
            return acc or TOP
        for _ in range(6):
            try:
                r = self.I.call(f, [acc, e], {}, node, st)
            except Exception as ex:
                from .interp import Dead
                if isinstance(ex, Dead):
                    break
                raise
            n = av_join(acc, r)
            if n == acc:
                break
            acc = n
        return acc

    def x_itertools_chain(self, args, kw, node, st):
        e = EMPTY
        ordt = False
        for x in args:
            v = x[1] if isinstance(x, tuple) else x
            if isinstance(x, tuple):
                v = self.iter_elem(v, node, st)
            e = av_join(e, self.iter_elem(v, node, st))
            ordt = ordt or self.unordered(v, st)
        return self.I.new_list(st, node, None, e, None, kind="iter", tag="chain", ordt=ordt)

    def x_itertools_accumulate(self, args, kw, node, st):
        return self.I.new_list(st, node, None, self.iter_elem(args[0], node, st) or TOP, None, kind="iter", tag="acc")

    def x_itertools_takewhile(self, args, kw, node, st):
        e = self.iter_elem(args[1], node, st)
        if e:
            self.I.call(args[0], [e], {}, node, st)
        return self.I.new_list(st, node, None, e, None, kind="iter", tag="tw")

    x_itertools_dropwhile = x_itertools_takewhile
    x_itertools_filterfalse = x_itertools_takewhile

    def x_itertools_product(self, args, kw, node, st):
        e = [self.iter_elem(x, node, st) for x in args if not isinstance(x, tuple)]
        if kw or not e or any(not z for z in e):
            return self.I.new_list(st, node, None, TOP, None, kind="iter", tag="prod")
        t = self.I.new_list(st, node, e, kind="tuple", tag="prodt")
        return self.I.new_list(st, node, None, t, None, kind="iter", tag="prod", ordt=any(self.unordered(x, st) for x in args))

    def x_copy_copy(self, args, kw, node, st):
        return self.copy_obj(args[0], node, st, False)

    def x_copy_deepcopy(self, args, kw, node, st):
        return self.copy_obj(args[0], node, st, True)

    def copy_obj(self, v, node, st, deep):
        out = EMPTY
        for a in v:
            if a.k == "ref":
                o = self.I.get(st, a.p)
                n = o.rep(flags=EMPTY, summary=False)
                if deep:
                    f = {k: self.copy_obj(x, node, st, True) if any(y.k == "ref" for y in x) else x for k, x in o.fields.items()}
                    it = tuple(self.copy_obj(x, node, st, True) if any(y.k == "ref" for y in x) else x for x in o.items) \
                        if o.items is not None else None
                    e = self.copy_obj(o.elem, node, st, True) if any(y.k == "ref" for y in o.elem) else o.elem
                    n = n.rep(fields=f, items=it, elem=e)
                s = ("s", node._nid, "copy:%s:%s" % (o.kind, a.p if not isinstance(a.p, tuple) else hash(a.p) % 997))
                st.heap[s] = n
                out |= mk("ref", s, a.l)
            else:
                out |= frozenset([a])
        return out

    def x_ast_literal_eval(self, args, kw, node, st):
        I = self.I
        v = args[0]
        l = av_labels(v)
        out = EMPTY
        for a in v:
            if a.k == "str":
                if isinstance(a.p, str):
                    try:
                        c = ast.literal_eval(a.p)
                        out = av_join(out, self.from_py(c, node, st))
                    except Exception:
                        I.synth(st, node, "ValueError", "malformed literal %r" % a.p, partial=len(v) > 1)
                    continue
                if isinstance(a.p, StrD) and a.p.kind == "exprlist":
                    c = a.p.p.cls
                    if "schur" in c:
                        out = av_join(out, self.part_list(a.p.p.part, node, st))
                    if "num" in c:
                        out = av_join(out, AInt(None))
                    if not c <= {"schur", "num"}:
                        I.synth(st, node, "ValueError", "not the text of one class", partial=bool(c & {"schur", "num"}) or len(v) > 1)
                    continue
                if isinstance(a.p, StrD) and a.p.kind in ("schurlist", "listtext"):
                    part = a.p.p
                    out = av_join(out, self.part_list(part, node, st))
                    continue
                I.synth(st, node, "ValueError", "malformed literal", partial=True)
                r = self.part_list(None, node, st)
                r = av_join(r, AInt(None))
                out = av_join(out, r)
            else:
                out = av_join(out, TOP)
        return av_add_labels(out, l)

    def part_list(self, part, node, st):
        I = self.I
        if part is not None and part and part[0] == "lit":
            its = []
            ok = True
            for x in part[1:]:
                if x[0] == "k" and isinstance(x[1], int):
                    its.append(AInt(x[1]))
                elif x[0] == "l":
                    its.append(AInt(x[1]))
                else:
                    ok = False
            if ok:
                return I.new_list(st, node, its, vn=part, tag="plist")
        if part is not None and part and part[0] == "named" and part[2] == ("pair?",):
            return I.new_list(st, node, [I.new_list(st, node, None, AInt(None), None, vn=(i,) + part, tag="pinner" + i) for i in "ab"],
                              vn=part, tag="ppair")
        if part is not None and part and part[0] == "pair?":
            inner = I.new_list(st, node, None, AInt(None), None, tag="pinner")
            return I.new_list(st, node, [inner, inner], tag="ppair")
        if part is None:
            inner = I.new_list(st, node, None, AInt(None), None, tag="pinner")
            return I.new_list(st, node, None, av_join(AInt(None), inner), None, tag="pmix")
        ln = None
        if part and part[0] == "arg":
            s = "len_" + str(part[1])
            ln = Lin.sym(s)
            c = st.cons.add_ge(ln)
            if c is not None:
                st.cons = c
        return I.new_list(st, node, None, AInt(None), ln, vn=part if part and part[0] not in ("part?",) else None, tag="plist")

    def from_py(self, c, node, st, tag="lit"):
        if isinstance(c, (list, tuple)):
            its = [self.from_py(x, node, st, tag + str(i)) for i, x in enumerate(c)]
            return self.I.new_list(st, node, its, kind="list" if isinstance(c, list) else "tuple", tag=tag,
                                   vn=self.vn_of_items(its, "list", st))
        if isinstance(c, (bool, int, str)) or c is None:
            return self.const_av(c)
        return TOP

    # ---- sympy functions
    def sympy_call(self, name, args, kw, node, st):
        I = self.I
        flat = [x for x in args if not isinstance(x, tuple)]
        l = EMPTY
        for x in flat:
            l |= av_labels(x)
        if name in ("Symbol", "Dummy", "var"):
            return self.make_symbol(flat[0], l, node, st)
        if name == "symbols":
            ok, c = const_of(flat[0])
            if ok and isinstance(c, str):
                import re
                names = [y for x in re.split(r"[\s,]+", c.strip()) if x for y in name_range(x)]
                out = [self.make_symbol(AStr(x), l, node, st) for x in names]
                if len(out) == 1 and not c.strip().endswith(",") and ":" not in c:
                    return out[0]
                return I.new_list(st, node, out, kind="tuple", tag="symbols", l=l)
            ki = self.known_items(flat[0], st)
            if ki is not None and not any(isinstance(x, tuple) for x in args):
                out = [self.sympy_call("symbols", [x], kw, node, st) for x in ki]
                return I.new_list(st, node, out, kind="tuple", tag="symbols", l=l)
            return self.make_symbol(flat[0], l, node, st)
        if name in ("Integer", "Rational", "Float", "Number"):
            v = None
            ok, c = const_of(flat[0])
            if ok and isinstance(c, int) and len(flat) == 1:
                v = poly_const(c)
            elif len(flat) == 2:
                ok2, d = const_of(flat[1])
                if ok and ok2 and isinstance(c, int) and isinstance(d, int) and d:
                    from fractions import Fraction
                    v = poly_const(Fraction(c, d))
            return ASym(Sym(["num"], "mono", v, ()), l)
        if name in ("sympify", "S", "parse_expr", "parsing.sympy_parser.parse_expr", "simplify", "expand", "factor", "nsimplify",
                    "together", "cancel", "collect", "S.Zero", "expand_mul", "powsimp", "horner", "factor_terms"):
            out = EMPTY
            for a in flat[0]:
                if a.k == "sym":
                    if name == "expand" and no_hint(args, kw):
                        out = av_join(out, frozenset([a]))
                    elif name in ("expand", "expand_mul"):
                        out = av_join(out, ASym(self.expanded(a.p), a.l))
                    elif name in ("simplify", "factor", "together", "cancel", "collect", "powsimp", "horner", "factor_terms"):
                        out = av_join(out, ASym(Sym(A, regrouped(name, a.p), a.p.val, a.p.part), a.l))
                    else:
                        out = av_join(out, frozenset([a]))
                elif a.k in ("int", "bool", "float"):
                    out = av_join(out, ASym(self.as_sym(a, node, st), a.l))
                elif a.k == "str":
                    out = av_join(out, self.parse_text(a, node, st))
                elif a.k in ("top", "extobj"):
                    out = av_join(out, ASym(Sym(), a.l))
                elif a.k == "ref":
                    o = I.get(st, a.p)
                    if o.kind == "inst":
                        # sympify of a foreign object: falls back to parsing str(obj) -- or fails
                        r = self.str_of(frozenset([a]), node, st)
                        if name.startswith("parse_expr"):
                            I.synth(st, node, "TypeError", "parse_expr of a %s" % I.tname(a, st), partial=len(flat[0]) > 1)
                            continue
                        I.synth(st, node, "SympifyError", "cannot sympify a %s" % I.tname(a, st), partial=len(flat[0]) > 1)
                    else:
                        if name == "expand" or name in ("sympify", "S"):
                            out = av_join(out, frozenset([a]))
                        else:
                            I.synth(st, node, "TypeError", "not an expression", partial=len(flat[0]) > 1)
                else:
                    I.synth(st, node, "SympifyError", "cannot sympify %s" % I.tname(a, st), partial=len(flat[0]) > 1)
            return out
        if name in ("Add", "Mul", "Pow", "<func>", "prod"):
            if name in ("Add", "Mul") and any(isinstance(x, tuple) for x in args):
                r = self.sym_fold(name, args, node, st)
                if r is not None:
                    return r
            if any(isinstance(x, tuple) for x in args) or name in ("<func>", "prod"):
                return self.sym_func(args, node, st, l)
            if not flat:
                return ASym(Sym(["num"], "mono", poly_const(0 if name == "Add" else 1), ()))
            acc = flat[0]
            for x in flat[1:]:
                acc = I.binop({"Add": ast.Add(), "Mul": ast.Mult(), "Pow": ast.Pow()}[name], acc, x, node, st)
            return acc
        if name == "Abs" and I.naming and len(flat) == 1:
            n = self.ex_int(flat[0])
            if n is not None:
                return ASym(Sym(["num"], "mono", poly_const(abs(n)), ()), l)
        if name in ("Poly",):
            return mk("extobj", ("sympy.Poly", None), l)
        if I.naming and name in ("Add.make_args", "Mul.make_args") and len(flat) == 1:
            r = self.ex_make_args(name[:3], flat[0], node, st)
            if r is not None:
                return r
        if I.naming and name == "diff" and len(flat) == 2 and len(args) == 2 and len(flat[0]) == 1 and next(iter(flat[0])).k == "sym":
            r = self.ex_method(next(iter(flat[0])), "diff", args[1:], kw, node, st)
            if r is not None:
                return r
        I.note("sympy", name, node)
        return mk("extobj", ("sympy." + name, None), l)

    def make_symbol(self, v, l, node, st):
        ok, c = const_of(v)
        if ok and isinstance(c, str):
            if c[:1] == "q":
                self.I.ev("qsym", node, (c,))
                return ASym(Sym(["q"], "mono", poly_atom(("q", c)), ()), l | frozenset(["q:" + c]))
            if c[:1] == "S":
                return ASym(Sym(["schur"], "mono", poly_atom(("S", c)), ("part?",)), l)
            return ASym(Sym(["var"], "mono", poly_atom(("v", c)), ()), l)
        for a in v:
            if a.k == "str" and isinstance(a.p, StrD):
                return self.parse_text(a, node, st)
        return ASym(Sym(["schur", "q", "var"], "mono", None, None), l)

    def parse_text(self, a, node, st):
        s = a.p
        if isinstance(s, StrD):
            if s.kind == "expr" and s.p is not None:
                return ASym(s.p, a.l)
            if s.kind == "schur":
                part = s.p
                if part is not None and part and part[0] == "named":
                    return ASym(Sym(["schur"], "mono", part[1], part[2]), a.l)
                if part is not None and part and part[0] not in ("part?", "pair?"):
                    val = poly_atom(("S", part))
                else:
                    val = None
                return ASym(Sym(["schur"], "mono", val, part), a.l)
            if s.kind == "user":
                return ASym(s.p, a.l)
            if s.kind in ("listtext",):
                return ASym(Sym(A, "unk", None, None), a.l)
            return ASym(Sym(A, "unk", None, None), a.l)
        if isinstance(s, str):
            import re
            t = s.strip()
            if re.fullmatch(r"-?\d+", t):
                return ASym(Sym(["num"], "mono", poly_const(int(t)), ()), a.l)
            if re.fullmatch(r"q\d*", t):
                return ASym(Sym(["q"], "mono", poly_atom(("q", t)), ()), a.l | frozenset(["q:" + t]))
            m = re.fullmatch(r"Sf((?:-?\d+(?:j-?\d+)*)?)g", t)
            if m:
                body = m.group(1)
                cs = tuple(("k", int(x)) for x in body.split("j")) if body else ()
                part = ("lit",) + cs
                return ASym(Sym(["schur"], "mono", poly_atom(("S", part)), part), a.l)
            if "[" in t or "]" in t:
                self.I.synth(st, node, "SyntaxError", "cannot parse %r" % t)
                return ASym(Sym(A, "unk", None, None), a.l)
            r = self.parse_known(t, a.l, node, st)
            if r is not None:
                return r
            return ASym(Sym(A, "unk", None, None), a.l)
        return ASym(Sym(A, "unk", None, None), a.l)

    def parse_known(self, t, l, node, st):
        """the value of a literal expression text, or None"""
        try:
            tree = ast.parse(t, mode="eval").body
        except (SyntaxError, ValueError):
            return None

        import re

        def ev(n):
            if isinstance(n, ast.Constant) and type(n.value) is int:
                return ASym(Sym(["num"], "mono", poly_const(n.value), ()), l)
            if isinstance(n, ast.Name):
                if re.fullmatch(r"q\d*|Sf(-?\d+(j-?\d+)*)?g", n.id):
                    return self.parse_text(Atom("str", n.id, l), node, st)
                return None
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                x = ev(n.operand)
                return None if x is None else self.I.binop(ast.Mult(), ASym(Sym(["num"], "mono", poly_const(-1), ()), l), x, node, st)
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Pow)):
                x, y = ev(n.left), ev(n.right)
                return None if x is None or y is None else self.I.binop(n.op, x, y, node, st)
            return None
        return ev(tree)

    def x_sympy_parsing_sympy_parser_parse_expr(self, args, kw, node, st):
        return self.sympy_call("parse_expr", args, kw, node, st)

    # ---- matplotlib: figures are resources
    def new_fig(self, node, st, how):
        loc = "%s:%s (%s)" % self.I.ctx.loc(node)
        self.I.ev("fig+", node, (how,))
        st.pc = frozenset(x for x in st.pc if x not in ("nofig:*", "nofig:" + loc)) | {"fig:" + loc}
        return mk("extobj", ("figure", loc)), mk("extobj", ("axes", loc))

    def fig_size(self, vs, node, st):
        """sizes that are not numbers are refused"""
        for v in vs:
            for a in v if not isinstance(v, tuple) else ():
                o = self.I.get(st, a.p) if a.k == "ref" else None
                bad = a.k in ("none", "str") or o is not None and o.kind in ("list", "tuple", "dict", "set", "inst")
                if bad:
                    self.I.synth(st, node, "TypeError", "a figure size must be numbers", partial=len(v) > 1)

    def fig_sizes(self, v, node, st):
        ki = self.known_items(v, st)
        if ki is not None:
            self.fig_size(ki, node, st)

    def figure_method(self, a, name, args, kw, node, st):
        """methods of a figure; None: not modelled"""
        if name in ("add_subplot", "add_axes", "gca"):
            return mk("extobj", ("axes", a.p[1]))
        if name == "set_size_inches":
            if len(args) == 1 and not isinstance(args[0], tuple):
                self.fig_sizes(args[0], node, st)
            else:
                self.fig_size(args, node, st)
            return NONE
        if name in ("set_figwidth", "set_figheight", "set_dpi"):
            self.fig_size(args, node, st)
            return NONE
        if name in ("tight_layout", "suptitle", "text", "subplots_adjust", "set_facecolor", "add_artist", "set_tight_layout"):
            return NONE
        return None

    def x_matplotlib_pyplot_subplots(self, args, kw, node, st):
        if "figsize" in kw:
            self.fig_sizes(kw["figsize"], node, st)
        fig, ax = self.new_fig(node, st, "subplots")
        return self.I.new_list(st, node, [fig, ax], kind="tuple", tag="subplots")

    def x_matplotlib_pyplot_figure(self, args, kw, node, st):
        if "figsize" in kw:
            self.fig_sizes(kw["figsize"], node, st)
        return self.new_fig(node, st, "figure")[0]

    def x_matplotlib_pyplot_close(self, args, kw, node, st):
        self.I.ev("fig-", node, ("close",))
        figs = self.I.figs_in(args) | self.I.figs_in(kw.values())
        self.I.figs_closed(st, figs or None)
        return NONE

    def x_matplotlib_pyplot_savefig(self, args, kw, node, st):
        self.I.ev("io", node, ("save", "matplotlib.pyplot.savefig"))
        self.I.may_fail(st, node, "the file cannot be written")
        return NONE

    # ------------------------------------------------------------------ python builtins
    def b_print(self, args, kw, node, st):
        nd = {x for x in st.pc if strong(x)}
        if nd:
            self.I.ev("printnd", node, (tuple(sorted(nd)),))
        for v in args:
            self.str_of(v[1] if isinstance(v, tuple) else v, node, st)
            labs = self.shape_labels(v[1] if isinstance(v, tuple) else v, st)
            nd = {x for x in labs if str(x).startswith("nondet:")}
            if nd:
                self.I.ev("printnd", node, (tuple(sorted(nd)),))
        return NONE

    def b_open(self, args, kw, node, st):
        return mk("extobj", ("file", None))

    def b_len(self, args, kw, node, st):
        v = args[0]
        out = EMPTY
        bad = []
        for a in v:
            if a.k == "ref":
                o = self.I.get(st, a.p)
                if o.kind == "inst":
                    f = self.I.class_lookup(o.cls, "__len__", st)
                    if f is None:
                        bad.append(a)
                    else:
                        out = av_join(out, self.I.call(self.I.bind_method(f, a, o.cls), [], {}, node, st))
                    continue
                if o.kind == "iter":
                    bad.append(a)
                    continue
                if o.kind == "range":
                    out = av_join(out, AInt(self.av_len(frozenset([a]), st), a.l))
                    continue
                L = Lin(len(o.items)) if o.items is not None else o.len
                if L is None and len(v) == 1:
                    L = self.materialise_len(a, o, node, st)
                out = av_join(out, AInt(L, a.l))
            elif a.k == "str":
                out = av_join(out, AInt(len(a.p) if isinstance(a.p, str) else None, a.l))
            elif a.k in ("top", "extobj"):
                out = av_join(out, AInt(None))
            else:
                bad.append(a)
        if bad:
            self.I.synth(st, node, "TypeError", "object of type %s has no len()" % self.I.tname(bad[0], st), partial=bool(out))
        return out

    def b_isinstance(self, args, kw, node, st):
        out = EMPTY
        for a in args[0]:
            r, _, _ = self.isinstance_atom(a, args[1], st)
            out = av_join(out, ABool(r))
        return out

    def b_issubclass(self, args, kw, node, st):
        return ABool(None)

    def b_hasattr(self, args, kw, node, st):
        ok, c = const_of(args[1])
        out = EMPTY
        for a in args[0]:
            r = None
            if ok:
                save = self.I.ctx.raises
                self.I.ctx.raises = []
                s2 = st.copy()
                try:
                    r = self.I.getattr1(a, c, node, s2) is not None
                except Exception:
                    r = None
                self.I.ctx.raises = save
                if a.k in ("top", "extobj"):
                    r = None
            out = av_join(out, ABool(r))
        return out

    def b_getattr(self, args, kw, node, st):
        ok, c = const_of(args[1])
        if not ok:
            return TOP
        if len(args) > 2:
            out = args[2]
            for a in args[0]:
                r = self.I.getattr1(a, c, node, st)
                if r is not None:
                    out = av_join(out, r)
            return out
        return self.I.getattr(args[0], c, node, st)

    def b_setattr(self, args, kw, node, st):
        ok, c = const_of(args[1])
        self.I.setattr(args[0], c if ok else "?", args[2], node, st)
        return NONE

    def b_type(self, args, kw, node, st):
        out = EMPTY
        for a in args[0]:
            if a.k == "ref" and self.I.get(st, a.p).kind == "inst":
                out |= mk("cls", self.I.get(st, a.p).cls)
            elif a.k in ("int", "str", "bool", "float"):
                out |= mk("ext", "builtins." + a.k)
            elif a.k == "ref":
                out |= mk("ext", "builtins." + self.I.get(st, a.p).kind)
            else:
                out |= TOP
        return out

    def b_int(self, args, kw, node, st):
        if not args:
            return AInt(0)
        out = EMPTY
        bad = []
        for a in args[0]:
            if a.k in ("int",):
                out = av_join(out, frozenset([a]))
            elif a.k == "bool":
                out = av_join(out, AInt(int(a.p) if a.p in (True, False) else None, a.l))
            elif a.k == "float":
                r = Lin(int(a.p)) if isinstance(a.p, Fraction) else None
                if isinstance(a.p, tuple) and a.p[0] == "div" and a.p[2].is_const() and a.p[2].c > 0 and st.cons.entails_ge(a.p[1]):
                    r = self.floordiv(a.p[1], a.p[2].c, node, st)
                out = av_join(out, AInt(r, a.l))
            elif a.k == "sym":
                self.I.ev("intsym", node, (a.p.cls == {"num"},))
                n = self.ex_int(frozenset([a])) if self.I.naming else None
                out = av_join(out, AInt(None if n is None else Lin(n), a.l))
            elif a.k == "str":
                out = av_join(out, AInt(None, a.l))
            elif a.k in ("top", "extobj"):
                out = av_join(out, AInt(None, a.l))
            else:
                bad.append(a)
        if bad:
            self.I.synth(st, node, "TypeError", "int() argument", partial=bool(out))
        return out

    def b_float(self, args, kw, node, st):
        return mk("float")

    def b_bool(self, args, kw, node, st):
        t, f, _, _ = self.I.truth(args[0], st.copy(), node)
        return ABool(True) if f is None else ABool(False) if t is None else ABool(None)

    def b_str(self, args, kw, node, st):
        return self.str_of(args[0], node, st) if args else AStr("")

    def b_repr(self, args, kw, node, st):
        return self.str_of(args[0], node, st, "repr")

    b_ascii = b_repr
    b_format = b_str

    def b_abs(self, args, kw, node, st):
        out = EMPTY
        for a in args[0]:
            L = lin_of(a)
            if L is not None:
                if st.cons.entails_ge(L):
                    out = av_join(out, AInt(L, a.l))
                    continue
                if st.cons.entails_ge(-L):
                    out = av_join(out, AInt(-L, a.l))
                    continue
                s = self.I.fresh(st, node, "abs")
                X = Lin.sym(s)
                c = st.cons.add_ge(X - L)
                c = c and c.add_ge(X + L)
                if c is not None:
                    st.cons = c
                out = av_join(out, AInt(X, a.l))
            elif a.k == "sym":
                n = self.ex_int(frozenset([a])) if self.I.naming else None
                out = av_join(out, ASym(Sym(), a.l) if n is None else ASym(Sym(["num"], "mono", poly_const(abs(n)), ()), a.l))
            elif a.k == "float":
                out = av_join(out, frozenset([a]))
            else:
                out = av_join(out, AInt(None, a.l))
        return out

    def b_pow(self, args, kw, node, st):
        return self.I.binop(ast.Pow(), args[0], args[1], node, st)

    def b_divmod(self, args, kw, node, st):
        q = self.I.binop(ast.FloorDiv(), args[0], args[1], node, st)
        r = self.I.binop(ast.Mod(), args[0], args[1], node, st)
        return self.I.new_list(st, node, [q, r], kind="tuple", tag="divmod")

    def b_round(self, args, kw, node, st):
        return AInt(None, av_labels(args[0]))

    def b_hex(self, args, kw, node, st):
        return AStr(None, av_labels(args[0]) if args else EMPTY)

    b_bin = b_oct = b_hex

    def b_id(self, args, kw, node, st):
        return AInt(None)

    def b_hash(self, args, kw, node, st):
        for a in args[0]:
            if a.k == "ref":
                o = self.I.get(st, a.p)
                if o.kind in ("list", "dict", "set"):
                    self.I.synth(st, node, "TypeError", "unhashable type", partial=len(args[0]) > 1)
                if o.kind == "inst":
                    f = self.I.class_lookup(o.cls, "__hash__", st)
                    if f is not None:
                        self.I.call(self.I.bind_method(f, a, o.cls), [], {}, node, st)
        return AInt(None)

    def b_callable(self, args, kw, node, st):
        return ABool(None)

    def b_chr(self, args, kw, node, st):
        return AStr(None)

    def b_ord(self, args, kw, node, st):
        return AInt(None)

    def b_vars(self, args, kw, node, st):
        return self.I.getattr(args[0], "__dict__", node, st) if args else TOP

    def b_dir(self, args, kw, node, st):
        return TOP

    b_locals = b_globals = b_dir

    def b_globals(self, args, kw, node, st):
        self.I.note("reflection", "globals()", node)
        return TOP

    def b_input(self, args, kw, node, st):
        return AStr(None)

    def _eval(self, args, kw, node, st):
        self.I.note("reflection", "eval/exec", node)
        return TOP
    b_eval = b_exec = b_compile = b___import__ = _eval

    # sequences
    def b_list(self, args, kw, node, st):
        if not args:
            return self.I.new_list(st, node, [], vn=("lit",))
        return self.seq_copy(args[0], "list", node, st, "list")

    def b_tuple(self, args, kw, node, st):
        if not args:
            return self.I.new_list(st, node, [], kind="tuple", vn=("lit",))
        return self.seq_copy(args[0], "tuple", node, st, "tuple")

    def b_set(self, args, kw, node, st, kind="set"):
        if not args:
            return self.I.alloc(st, node, Obj("set", None, None, (), EMPTY, Lin(0)), "set")
        e = self.iter_elem(args[0], node, st)
        e = frozenset(a.with_l(a.l - {"ordelem"}) for a in e)
        for a in e:
            if a.k == "ref":
                o = self.I.get(st, a.p)
                if o.kind in ("list", "dict", "set"):
                    self.I.synth(st, node, "TypeError", "unhashable type: %s" % o.kind, partial=len(e) > 1)
                elif o.kind == "inst":
                    f = self.I.class_lookup(o.cls, "__hash__", st)
                    if f is not None:
                        self.I.call(self.I.bind_method(f, a, o.cls), [], {}, node, st)
        ki = self.known_items(args[0], st)
        if ki is not None and len(ki) > 1:
            ki = self.distinct(ki)
        if ki is not None:
            return self.I.alloc(st, node, Obj("set", None, None, tuple(ki), EMPTY, Lin(len(ki))), "set")
        return self.I.alloc(st, node, Obj("set", None, None, None, e, None), "set")

    b_frozenset = b_set

    def x_collections_OrderedDict(self, args, kw, node, st):
        return self.b_dict(args, kw, node, st)

    x_weakref_WeakKeyDictionary = x_weakref_WeakValueDictionary = x_collections_OrderedDict

    def x_collections_defaultdict(self, args, kw, node, st):
        r = self.b_dict(args[1:], kw, node, st)
        for a in r:
            if a.k == "ref":
                o = self.I.get(st, a.p)
                st.heap[a.p] = o.rep(elem=TOP, len=None, summary=True)
        return r

    def b_dict(self, args, kw, node, st):
        if not args:
            fields = {("k", k): v for k, v in kw.items() if not isinstance(v, tuple)}
            return self.I.alloc(st, node, Obj("dict", None, fields, None, EMPTY, Lin(len(fields)), keyl=AStr(None) if fields else EMPTY), "dict")
        e = EMPTY
        k = EMPTY
        for a in args[0]:
            if a.k == "ref":
                o = self.I.get(st, a.p)
                if o.kind == "dict":
                    e = av_join(e, o.elem)
                    for x in o.fields.values():
                        e = av_join(e, x)
                    k = av_join(k, o.keyl)
                    continue
                for x in o.elems():
                    if x.k == "ref":
                        t = self.I.get(st, x.p)
                        if t.items is not None and len(t.items) == 2:
                            k = av_join(k, t.items[0])
                            e = av_join(e, t.items[1])
                            continue
                    e = av_join(e, TOP)
                    k = av_join(k, TOP)
            else:
                e, k = TOP, TOP
        return self.I.alloc(st, node, Obj("dict", None, {}, None, e, None, keyl=k), "dict")

    def b_range(self, args, kw, node, st):
        def L(v):
            if len(v) == 1:
                a, = v
                if a.k == "bool" and a.p in (True, False):
                    return Lin(int(a.p))
                return lin_of(a)
            return None
        bad = [x for v in args if not isinstance(v, tuple) for x in v if x.k in ("str", "none", "ref", "float", "sym")]
        if bad:
            n = sum(len(v) for v in args if not isinstance(v, tuple))
            self.I.synth(st, node, "TypeError", "range() argument is a %s" % self.I.tname(bad[0], st),
                         partial=any(any(x.k in ("int", "bool", "top") for x in v) for v in args if any(y in bad for y in v)))
        lo, hi, step = Lin(0), None, 1
        if len(args) == 1:
            hi = L(args[0])
        else:
            lo, hi = L(args[0]), L(args[1])
            if len(args) > 2:
                s = L(args[2])
                step = s.c if s is not None and s.is_const() else None
        l = EMPTY
        for v in args:
            l |= av_labels(v)
        # small constant ranges: known items
        if step == 1 and lo is not None and hi is not None:
            d = hi - lo
            if d.is_const() and d.c <= 8:
                return self.I.new_list(st, node, [AInt(lo + i, l) for i in range(max(d.c, 0))], kind="list", tag="range")
        r = self.I.alloc(st, node, Obj("range", None, None, None, AInt(None), None, vn=(lo, hi, step)), "range%r" % ((lo, hi, step),))
        return av_add_labels(r, l)

    def b_enumerate(self, args, kw, node, st):
        ki = self.known_items(args[0], st)
        start = 0
        if len(args) > 1 or "start" in kw:
            ok, start = const_of(args[1] if len(args) > 1 else kw["start"])
            if not ok:
                start = None
        if ki is not None and start is not None:
            its = [self.I.new_list(st, node, [AInt(i + start), v], kind="tuple", tag="en%d" % i) for i, v in enumerate(ki)]
            return self.I.new_list(st, node, its, kind="iter", tag="enum")
        e = self.iter_elem(args[0], node, st)
        if not e:
            return self.I.new_list(st, node, [], kind="iter", tag="enum")
        t = self.I.new_list(st, node, [AInt(None), e], kind="tuple", tag="en")
        return self.I.new_list(st, node, None, t, self.av_len(args[0], st), kind="iter", tag="enum", ordt=self.unordered(args[0], st))

    def b_zip(self, args, kw, node, st):
        if any(isinstance(x, tuple) for x in args):
            return self.I.new_list(st, node, None, TOP, None, kind="iter", tag="zip")
        kis = [self.known_items(x, st) for x in args]
        if kis and all(k is not None for k in kis):
            its = [self.I.new_list(st, node, list(t), kind="tuple", tag="z%d" % i) for i, t in enumerate(zip(*kis))]
            return self.I.new_list(st, node, its, kind="iter", tag="zip")
        es = [self.iter_elem(x, node, st) for x in args]
        if any(not e for e in es):
            return self.I.new_list(st, node, [], kind="iter", tag="zip")
        t = self.I.new_list(st, node, es, kind="tuple", tag="z")
        return self.I.new_list(st, node, None, t, None, kind="iter", tag="zip", ordt=any(self.unordered(x, st) for x in args))

    def b_map(self, args, kw, node, st):
        f = args[0]
        if any(isinstance(x, tuple) for x in args):
            return self.I.new_list(st, node, None, TOP, None, kind="iter", tag="map")
        ki = self.known_items(args[1], st) if len(args) == 2 else None
        if ki is not None and len(ki) <= 8:
            its = [self.I.call(f, [x], {}, node, st) for x in ki]
            return self.I.new_list(st, node, its, kind="iter", tag="map")
        es = [self.iter_elem(x, node, st) for x in args[1:]]
        if any(not e for e in es):
            return self.I.new_list(st, node, [], kind="iter", tag="map")
        if self.unordered(args[1], st):
            es = [av_add_labels(e, frozenset(["ordelem"])) for e in es]
        r = self.I.call(f, es, {}, node, st)
        return self.I.new_list(st, node, None, r, self.av_len(args[1], st), kind="iter", tag="map", ordt=self.unordered(args[1], st))

    def b_filter(self, args, kw, node, st):
        e = self.iter_elem(args[1], node, st)
        if e and not any(a.k == "none" for a in args[0]):
            self.I.call(args[0], [e], {}, node, st)
        return self.I.new_list(st, node, None, e, None, kind="iter", tag="filter", ordt=self.unordered(args[1], st))

    def b_reversed(self, args, kw, node, st):
        ki = self.known_items(args[0], st)
        bad = [a for a in args[0] if a.k == "ref" and self.I.get(st, a.p).kind in ("set", "frozenset")]
        if bad:
            self.I.synth(st, node, "TypeError", "set object is not reversible", partial=len(bad) < len(args[0]))
        if ki is not None:
            return self.I.new_list(st, node, list(reversed(ki)), kind="iter", tag="rev", ordt=self.unordered(args[0], st))
        if len(args[0]) == 1:
            a, = args[0]
            if a.k == "ref" and self.I.get(st, a.p).kind == "range":
                lo, hi, step = range_of(self.I.get(st, a.p))
                if step == 1 and lo is not None and hi is not None:
                    return self.I.alloc(st, node, Obj("range", None, None, None, AInt(None), None, vn=(hi - 1, lo - 1, -1)), "rrange")
        return self.seq_copy(args[0], "iter", node, st, "rev", reverse=True)

    def sort_key(self, v, kw, node, st):
        """run the key function; True if ties of distinct elements are possible"""
        e = self.iter_elem(v, node, st)
        tie = False
        if "key" in kw and e and not any(a.k == "none" for a in kw["key"]):
            k = self.I.call(kw["key"], [e], {}, node, st)
            ek, kk = av_kinds(e), av_kinds(k)
            if kk and not ek <= {"int", "bool", "float"} and all(self.plain_number(a, st) for a in k):
                tie = True
            if any(x.startswith("nondet:") for x in self.shape_labels(k, st)):
                tie = "key"
        else:
            for a in e:
                if a.k == "ref":
                    o = self.I.get(st, a.p)
                    if o.kind == "inst":
                        f = self.I.class_lookup(o.cls, "__lt__", st)
                        if f is not None:
                            self.I.call(self.I.bind_method(f, a, o.cls), [frozenset([a])], {}, node, st)
                        else:
                            self.I.synth(st, node, "TypeError", "'<' not supported", partial=True)
        return tie

    def plain_number(self, a, st):
        """a number or a tuple of numbers: a key that different elements can share"""
        if a.k in ("int", "bool", "none", "float"):
            return True
        if a.k != "ref":
            return False
        o = self.I.get(st, a.p)
        return o is not None and o.kind == "tuple" and o.items is not None and all(
            self.plain_number(b, st) for x in o.items for b in x) and all(o.items)

    def b_object(self, args, kw, node, st):
        return mk("extobj", ("object", None))

    def b_sorted(self, args, kw, node, st):
        tie = self.sort_key(args[0], kw, node, st)
        ki = self.known_items(args[0], st)
        if ki is not None and len(ki) > 1:
            seq = self.I.naming and all(a.k == "ref" and self.I.get(st, a.p).kind in ("list", "tuple") for a in args[0])
            ki = ki if seq else self.distinct(ki)
        if ki is not None and self.I.naming and len(ki) > 1:
            ki = self.in_order(ki, kw, node, st) or (ki if self.I.any_order else None)
        if ki is not None:
            return self.I.new_list(st, node, ki, tag="sorted")
        e = self.iter_elem(args[0], node, st)
        e = frozenset(a.with_l(a.l - {"ordelem"}) for a in e)
        if not e:
            return self.I.new_list(st, node, [], tag="sorted")
        ln = Lin(len(ki)) if ki is not None else self.av_len(args[0], st)
        return self.I.new_list(st, node, None, e, ln, tag="sorted", ordt=tie == "key" or bool(tie) and self.unordered(args[0], st))

    def in_order(self, items, kw, node, st):
        """items sorted by keys that are known, or None"""
        keys = []
        ok, rev = const_of(kw["reverse"]) if "reverse" in kw else (True, False)
        if not ok:
            return None
        for x in items:
            k = self.I.call(kw["key"], [x], {}, node, st) if "key" in kw and not any(a.k == "none" for a in kw["key"]) else x
            ok, c = const_of(k)
            if not ok and len(k) == 1:
                a, = k
                if a.k == "str" and isinstance(a.p, StrD) and a.p.kind == "schur" and lit_numbers(a.p.p):
                    ok, c = True, "S[%s]" % ",".join(str(n) for _, n in a.p.p[1:])
            if not ok or type(c) not in (int, str) or keys and type(c) is not type(keys[0]):
                return None
            keys.append(c)
        order = sorted(range(len(items)), key=lambda i: keys[i], reverse=bool(rev))
        return [items[i] for i in order]

    def _extreme(self, args, kw, node, st, ismin):
        labs = EMPTY
        if len(args) == 1 and not isinstance(args[0], tuple):
            ki = self.known_items(args[0], st)
            if ki is not None and not ki and "default" not in kw:
                self.I.synth(st, node, "ValueError", "min()/max() of an empty sequence")
            for a in args[0]:
                if a.k == "ref":
                    o = self.I.get(st, a.p)
                    if o.kind in ("list", "tuple", "set") and o.items is None and o.len is not None and "default" not in kw:
                        if st.cons.entails_eq(o.len):
                            self.I.synth(st, node, "ValueError", "min()/max() of an empty sequence", partial=len(args[0]) > 1)
            bad = [a for a in args[0] if a.k in ("int", "none", "bool", "sym")]
            if bad:
                self.I.synth(st, node, "TypeError", "%s object is not iterable" % bad[0].k, partial=len(bad) < len(args[0]))
            e = self.iter_elem(args[0], node, st)
            tie = self.sort_key(args[0], kw, node, st) if "key" in kw else False
            if self.unordered(args[0], st) and tie:
                labs = self.I.nds("set order", node)
            out = frozenset(a.with_l(a.l - {"ordelem"}) for a in e)
            if "default" in kw:
                n = Lin(len(ki)) if ki is not None else self.av_len(args[0], st)
                if n is not None and st.cons.entails_eq(n):
                    out = kw["default"]
                elif n is None or not st.cons.entails_ge(n - 1):
                    out = av_join(out, kw["default"])
            # elements that are ints: value unknown
            res = EMPTY
            for a in out:
                if a.k == "int" and (ki is None or len(ki) > 1):
                    a = Atom("int", None, a.l)
                res = av_join(res, frozenset([a]))
            if not res:
                self.I.synth(st, node, "ValueError", "min()/max() of an empty sequence", partial=True)
                return TOP
            return av_add_labels(res, labs | av_labels(args[0]))
        vals = [v for v in args if not isinstance(v, tuple)]
        if len(vals) != len(args):
            return AInt(None)
        acc = vals[0]
        for v in vals[1:]:
            acc = self.minmax2(acc, v, ismin, node, st)
        return acc

    def minmax2(self, a, b, ismin, node, st):
        l = av_labels(a) | av_labels(b)
        xa, xb = av_one(a, "int"), av_one(b, "int")
        if xa is not None and xb is not None and xa.p is not None and xb.p is not None:
            d = xb.p - xa.p
            if st.cons.entails_ge(d):
                return AInt(xa.p if ismin else xb.p, l)
            if st.cons.entails_ge(-d):
                return AInt(xb.p if ismin else xa.p, l)
            s = self.I.fresh(st, node, "mm%d" % ismin)
            X = Lin.sym(s)
            if ismin:
                c = st.cons.add_ge(xa.p - X)
                c = c and c.add_ge(xb.p - X)
            else:
                c = st.cons.add_ge(X - xa.p)
                c = c and c.add_ge(X - xb.p)
            if c is not None:
                st.cons = c
            return AInt(X, l)
        bad = [x for x in a | b if x.k in ("none",)]
        if bad:
            self.I.synth(st, node, "TypeError", "'<' not supported with None", partial=len(a | b) > 1)
        if av_kinds(a | b) <= {"int", "bool"}:
            return AInt(None, l)
        return frozenset(Atom("int", None, x.l | l) if x.k == "int" else x for x in av_join(a, b))

    def b_min(self, args, kw, node, st):
        return self._extreme(args, kw, node, st, True)

    def b_max(self, args, kw, node, st):
        return self._extreme(args, kw, node, st, False)

    def b_sum(self, args, kw, node, st):
        ki = self.known_items(args[0], st)
        acc = args[1] if len(args) > 1 else kw.get("start", AInt(0))
        if ki is not None and len(ki) <= 8:
            for x in ki:
                acc = self.I.binop(ast.Add(), acc, x, node, st)
            return acc
        bad = [a for a in args[0] if a.k in ("int", "none", "bool", "sym")]
        if bad:
            self.I.synth(st, node, "TypeError", "%s object is not iterable" % bad[0].k, partial=len(bad) < len(args[0]))
        e = self.iter_elem(args[0], node, st)
        l = av_labels(args[0]) | av_labels(e)
        if av_kinds(av_join(e, acc)) <= {"int", "bool"}:
            return AInt(None, l - {"ordelem"})
        from .interp import Dead
        if not e:
            return acc
        for _ in range(5):
            s2 = st.copy()
            try:
                r = self.I.binop(ast.Add(), acc, e, node, s2)
            except Dead:
                break
            n = av_join(acc, r)
            st.set(state_join(st, s2))
            if n == acc:
                break
            acc = n
        return acc

    def b_all(self, args, kw, node, st):
        ki = self.known_items(args[0], st)
        if ki is not None:
            cs = [const_of(x) for x in ki]
            if all(ok for ok, _ in cs):
                return ABool(all(c for _, c in cs))
            if any(ok and not c for ok, c in cs):
                return ABool(False)
            return ABool(None)
        e = self.iter_elem(args[0], node, st)
        ok, c = const_of(e)
        if ok and c:
            return ABool(True)
        bad = [a for a in args[0] if a.k in ("int", "none", "bool", "sym")]
        if bad:
            self.I.synth(st, node, "TypeError", "%s object is not iterable" % bad[0].k, partial=len(bad) < len(args[0]))
        return ABool(None, av_labels(args[0]))

    def b_any(self, args, kw, node, st):
        ki = self.known_items(args[0], st)
        if ki is not None:
            cs = [const_of(x) for x in ki]
            if all(ok for ok, _ in cs):
                return ABool(any(c for _, c in cs))
            return ABool(None)
        e = self.iter_elem(args[0], node, st)
        ok, c = const_of(e)
        if ok and not c:
            return ABool(False)
        return ABool(None, av_labels(args[0]))

    def b_iter(self, args, kw, node, st):
        return self.seq_copy(args[0], "iter", node, st, "iter")

    def b_next(self, args, kw, node, st):
        e = self.iter_elem(args[0], node, st)
        l = EMPTY
        if self.unordered(args[0], st):
            l = self.I.nds("set order", node)
        if len(args) > 1:
            e = av_join(e, args[1])
        if not e:
            self.I.synth(st, node, "StopIteration", "", partial=True)
            return TOP
        ki = self.known_items(args[0], st)
        if ki:
            pass
        return av_add_labels(e, l)

    def b_slice(self, args, kw, node, st):
        return TOP

    def b_super(self, args, kw, node, st):
        if len(args) == 2:
            out = EMPTY
            for c in args[0]:
                for a in args[1]:
                    if c.k == "cls":
                        out |= mk("super", (a, c.p))
            return out or TOP
        return TOP

    def b_property(self, args, kw, node, st):
        return frozenset(Atom("prop", a) for a in args[0])

    def b_staticmethod(self, args, kw, node, st):
        return frozenset(Atom("static", a) for a in args[0])

    def b_classmethod(self, args, kw, node, st):
        return frozenset(Atom("classm", a) for a in args[0])

    def b_object(self, args, kw, node, st):
        return mk("extobj", ("object", None))

    def x_str_maketrans(self, args, kw, node, st):
        return mk("extobj", ("transtable", None))

    def x_builtins_str_maketrans(self, args, kw, node, st):
        cs = [const_of(x) for x in args]
        if all(ok for ok, _ in cs):
            try:
                t = str.maketrans(*[c for _, c in cs])
                return mk("extobj", ("transtable", tuple(sorted(t.items()))))
            except Exception as e:
                self.I.synth(st, node, "ValueError", "maketrans: %s" % e)
        if len(args) == 1:
            for a in args[0]:
                if a.k == "ref":
                    o = self.I.get(st, a.p)
                    if o.kind == "dict" and not o.elem:
                        d = {}
                        for k, v in o.fields.items():
                            ok, c = const_of(v)
                            if ok:
                                d[k[1]] = c
                        try:
                            return mk("extobj", ("transtable", tuple(sorted(str.maketrans(d).items()))))
                        except Exception:
                            pass
        return mk("extobj", ("transtable", None))


def mono_sym(m, c):
    """the expression c*m, m a monomial over quantum parameters and classes; None when m has other factors"""
    if any(not (isinstance(at, tuple) and at[0] in ("q", "S")) for at, _ in m):
        return None
    val = frozenset([(m, c)])
    part = ()
    for at, _ in m:
        if at[0] == "S":
            part = part_join(part, ("pair?",) if at[1][:1] == ("pair",) else at[1] if at[1] else ("part?",))
    if not m:
        return Sym(["num"], "mono", val, ())
    if c == 1 and len(m) == 1:
        (at, e), = m
        return Sym(["pow"] if e != 1 else [{"q": "q", "S": "schur"}[at[0]]], "mono", val, part)
    return Sym(["mul"], "mono", val, part)


def refine(p):
    """the exact class of an expanded expression over distinct symbols"""
    if p.val is None or p.form not in ("mono", "sum") or len(p.cls) == 1:
        return p
    if any(not (isinstance(at, tuple) and at[0] in ("q", "S")) or e < 0 for m, _ in p.val for at, e in m):
        return p
    if len(p.val) >= 2:
        return p.rep(cls=["add"])
    r = mono_sym(*(list(p.val)[0] if p.val else ((), 0)))
    return p if r is None else p.rep(cls=r.cls, form="mono")


def lit_numbers(part):
    """a list written out in numbers"""
    return isinstance(part, tuple) and part[:1] == ("lit",) and all(isinstance(x, tuple) and x[0] == "k" and isinstance(x[1], int) for x in part[1:])


def val_args(p):
    """the operands of an expression whose value is known"""
    if p.val is None or p.form not in ("mono", "sum"):
        return None
    ms = sorted(p.val, key=repr)
    if p.cls == {"add"} and len(ms) >= 2:
        out = [mono_sym(m, c) for m, c in ms]
    elif p.cls == {"mul"} and len(ms) == 1:
        (m, c), = ms
        out = ([mono_sym((), c)] if c != 1 else []) + [mono_sym(((at, e),), Fraction(1)) for at, e in m]
    elif p.cls == {"pow"} and len(ms) == 1 and ms[0][1] == 1 and len(ms[0][0]) == 1:
        ((at, e),), _ = ms[0]
        out = [mono_sym(((at, 1),), Fraction(1)), mono_sym((), Fraction(e))]
    else:
        return None
    return None if any(x is None for x in out) else out


def regrouped(name, p):
    """shape after a rewriting that may collect a sum into a product"""
    if p.form == "mono":
        return "mono"
    return "unexp" if name in ("factor", "collect", "together", "simplify", "horner", "factor_terms") else "unk"


def no_hint(args, kw):
    """expand() called with a hint switched off"""
    for k, v in (kw or {}).items():
        ok, c = const_of(v)
        if ok and c is False and k in ("mul", "multinomial", "deep"):
            return True
    return False


SYMPY_EXPR_ATTRS = {"expand", "subs", "xreplace", "replace", "simplify", "factor", "together", "cancel", "collect", "coeff",
                    "as_coefficients_dict", "as_ordered_terms", "has", "func", "atoms", "doit", "evalf", "as_coeff_Mul",
                    "as_base_exp", "as_independent", "diff", "as_expr", "copy", "equals", "is_constant", "as_terms"}
PY_LIST_STR = {"append", "extend", "insert", "pop", "remove", "sort", "reverse", "index", "strip", "split", "join", "startswith",
               "translate", "lower", "upper", "items", "keys", "values", "get", "format"}
