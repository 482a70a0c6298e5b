"""Load the sources of the analysed packages: parse, number every AST node."""
import ast
import hashlib
import os

REPO = os.environ.get("VERIF_REPO", "/repo")
PACKAGES = ("schubertpy", "schubertsage")
SKIP_DIRS = ("testcases", "tests", "test", "__pycache__")


class AnalysisBroken(Exception):
    """the analysis cannot give an answer (missing anchor, unreadable source)"""


class Module:
    def __init__(self, name, path, is_pkg):
        self.name = name
        self.path = path
        self.rel = os.path.relpath(path, REPO)
        self.is_pkg = is_pkg
        with open(path, encoding="utf-8") as f:
            self.src = f.read()
        try:
            self.tree = ast.parse(self.src, filename=path)
        except SyntaxError as e:
            raise AnalysisBroken("cannot parse %s: %s" % (path, e))


class Program:
    def __init__(self, repo=None):
        global REPO
        if repo:
            REPO = repo
        self.modules = {}
        for p in PACKAGES:
            root = os.path.join(REPO, p)
            for d, dirs, files in os.walk(root):
                dirs[:] = sorted(x for x in dirs if x not in SKIP_DIRS)
                for f in sorted(files):
                    if not f.endswith(".py"):
                        continue
                    full = os.path.join(d, f)
                    parts = os.path.relpath(full, REPO)[:-3].split(os.sep)
                    is_pkg = parts[-1] == "__init__"
                    if is_pkg:
                        parts = parts[:-1]
                    name = ".".join(parts)
                    self.modules[name] = Module(name, full, is_pkg)
        nid = 0
        self.nodes = {}
        self.nfuncs = 0
        for name in sorted(self.modules):
            m = self.modules[name]
            for n in ast.walk(m.tree):
                n._nid = nid
                nid += 1
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.nfuncs += 1
            number_funcs(m.tree, m.name)

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode())
            h.update(self.modules[n].src.encode())
        return h.hexdigest()


def number_funcs(tree, modname):
    """attach _qual and _free (free variable names, transitively) to functions"""
    def visit(node, prefix):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                c._qual = prefix + c.name
                visit(c, prefix + c.name + ".")
            elif isinstance(c, ast.Lambda):
                c._qual = prefix + "<lambda>"
                visit(c, prefix + "<lambda>.")
            else:
                visit(c, prefix)
    visit(tree, "")


def fn_args(node):
    a = node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if a.vararg:
        names.append(a.vararg.arg)
    names += [x.arg for x in a.kwonlyargs]
    if a.kwarg:
        names.append(a.kwarg.arg)
    return names


def scope_info(node):
    """(locals, names used in this scope or nested scopes but not local, nonlocals, globals)"""
    if hasattr(node, "_scope"):
        return node._scope
    loc, used, nonl, glob = set(), set(), set(), set()
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
        loc.update(fn_args(node))
        body = node.body if isinstance(node.body, list) else [node.body]
    else:
        body = node.body

    def target_names(t):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                loc.add(x.id)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            loc.add(n.name)
            for d in n.decorator_list:
                visit(d)
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                visit(d)
            l, u, nn, g = scope_info(n)
            used.update(u)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                visit(d)
            l, u, nn, g = scope_info(n)
            used.update(u)
            return
        if isinstance(n, ast.ClassDef):
            loc.add(n.name)
            for b in n.bases + n.decorator_list:
                visit(b)
            for s in n.body:
                visit_class(s)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            # comprehension targets live in an inner scope: rename-free treatment
            inner = set()
            for g in n.generators:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        inner.add(x.id)
            n._inner = inner
            for c in ast.iter_child_nodes(n):
                visit_comp(c, inner)
            return
        if isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
            used.update(n.names)
            return
        if isinstance(n, ast.Global):
            glob.update(n.names)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                loc.add((a.asname or a.name).split(".")[0])
            return
        if isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                used.add(n.id)
            else:
                loc.add(n.id)
            return
        for c in ast.iter_child_nodes(n):
            visit(c)

    def visit_comp(n, inner):
        # names bound by the comprehension are not free / not locals of the function
        before_l, before_u = set(loc), set(used)
        visit(n)
        for x in inner:
            if x not in before_u:
                used.discard(x)
            if x not in before_l:
                loc.discard(x)

    def visit_class(n):
        visit(n)

    for s in body:
        visit(s)
    loc -= nonl
    loc -= glob
    node._scope = (loc, (used - loc) | nonl, nonl, glob)
    return node._scope
