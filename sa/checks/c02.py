"""Results do not depend on what was computed before."""
from .shared import *

EXPLAIN = ("Effect and information-flow analysis of every public operation.  All writes that outlive the call (module, class, "
           "closure and function attributes, mutable defaults, the receiver, dictionaries used as caches, what a functools "
           "cache handed out) are collected with the set of inputs the stored value and the key depend on.  A write whose "
           "value depends on an input the key does not determine lets one call decide what a later call returns.")
RULES = {"R1": "an object handed out by a functools cache is not modified",
         "R2": "no list, set, variable or attribute shared by calls receives a value depending on the inputs of one call "
               "(unless nothing ever reads it)",
         "R3": "a dictionary used as a cache is keyed by everything its values depend on, checked against the inputs of the "
               "operation and again against the parameters of the function that fills the cache",
         "R4": "no method stores input-dependent data in the object it is called on, and none rebinds what the constructor set",
         "R5": "no list, dict or set kept by a cache, a module or the receiver is returned to the caller",
         "R6": "spaces that compare equal agree in every field the cached code reads",
         "R7": "no attribute or variable that operations set to different values is read by code whose results are remembered, or "
               "by an operation that has not set it itself"}
MIN = 1
PERSIST = ("global:", "cached:", "recv")


def tasks(tier):
    return TASKS


def run(I, task, log, tier):
    reads = public_attr_reads(I.prog)
    fillers = set()
    if task == "values":
        check_eq(I, log)

    modes = Modes()

    def one(second):
        def fn(c):
            if not second:
                modes.see(c)
            judge(I, c, log, reads, fillers, second)
        return fn
    gen = lambda: every_case(I, task) if task == "values" else _labelled(I, task)
    foreach(I, task, log, "R3", gen(), one(False), partial=True)
    modes.judge(I, log)
    if fillers:
        # the functions that fill the caches, with their own parameters as the inputs
        nodes = sorted(fillers, key=lambda n: n._nid)
        rl = Relabel(I)
        rl.install(nodes)
        foreach(I, task, log, "R3", gen(), one(True), partial=True)
        rl.remove(nodes)


def _labelled(I, task):
    yield from all_cases(I, task, fields=True)
    yield from table_cases(I, task)
    yield from table_methods(I, task)


def fn_at(I, loc):
    """the function containing a source location"""
    import ast
    best = None
    for m in I.prog.modules.values():
        if m.rel == loc[0]:
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.lineno <= loc[1] <= n.end_lineno:
                    if best is None or n.lineno > best.lineno:
                        best = n
    return best


def p_only(l):
    return {x for x in l if isinstance(x, str) and x.startswith("P:")}


def determined(key, val, second):
    """labels of val that key does not determine"""
    key = set(key)
    if second:
        full = {k for k in key if ("lossy:" + k[2:]) not in key}
    else:
        full = key
    miss = set()
    for v in val:
        if v in full:
            continue
        base = v.split(".")[0].split("[")[0]
        if base in full:
            continue
        miss.add(v)
    return miss


def judge(I, c, log, reads, fillers, second):
    s = sess(c)
    bad = set()
    for e in c.out.events:
        if e.kind == "mutate":
            op, fl, kind, attr = e.data
            nm = store_name(fl)
            if nm is None or nm == "recv" and kind in ("dict",):
                continue
            if nm.startswith("cached:") and not second:
                if kind == "dict":
                    continue
                bad.add("R1")
                log.viol("R1", c.entry, where(e), "%s%s changes the %s that the cache of %s hands out again" % (
                    op, " of ." + attr if attr else "", kind, nm[7:]), chain_of(e))
            elif nm.startswith("global:") and kind in ("list", "set", "opaque") and not second:
                if write_only(I.prog, nm) or thread_local(I.prog, nm):
                    continue
                bad.add("R2")
                log.viol("R2", c.entry, where(e), "%s changes the shared %s %s" % (op, kind, nm[7:]), chain_of(e))
            elif nm == "recv" and kind in ("list", "set") and not second:
                bad.add("R4")
                log.viol("R4", c.entry, where(e), "%s changes a %s kept by the object it is called on" % (op, kind), chain_of(e))
        elif e.kind == "aset" and not second:
            name, fl, owner, labels = e.data[:4]
            nm = store_name(fl)
            if nm is None:
                continue
            p = p_only(labels)
            if nm.startswith("global:"):
                if p and not write_only(I.prog, name) and not thread_local(I.prog, name):
                    bad.add("R2")
                    log.viol("R2", c.entry, where(e), "%s.%s, which outlives the call, is set to a value depending on %s" % (
                        owner, name, names(p)), chain_of(e))
            elif nm == "recv":
                p = {x for x in p if not x.startswith("P:self")}
                had = attr_had(c, name)
                if had:
                    bad.add("R4")
                    log.viol("R4", c.entry, where(e), "%s.%s, which the constructor set, is rebound by an operation" % (owner, name),
                             chain_of(e))
                elif p and name in reads:
                    bad.add("R4")
                    log.viol("R4", c.entry, where(e), "%s.%s remembers %s for later calls" % (owner, name, names(p)), chain_of(e))
        elif e.kind == "dstore":
            fl, kl, vl = e.data
            nm = store_name(fl)
            if nm is None or nm.startswith("cached:"):
                continue
            if thread_local(I.prog, nm):
                continue
            if not second:
                f = fn_at(I, e.loc)
                if f is not None:
                    fillers.add(f)
            v = p_only(vl)
            if nm == "recv" or (second and False):
                v = {x for x in v if not x.startswith("P:self")}
            miss = determined(set(kl), v, second)
            if miss:
                bad.add("R3")
                log.viol("R3", c.entry, where(e), "an entry of %s depends on %s, but its key does not" % (
                    "the object's own cache" if nm == "recv" else nm.replace("global:", "the shared dictionary "), names(miss)),
                    chain_of(e))
    if c.out.normal and not second:
        sv = c.out.ret
        for v in reach_values(s, sv, attrs=False):
            for a in v:
                if a.k != "ref":
                    continue
                o = s.I.get(s.st, a.p)
                if o is not None and o.kind in ("list", "dict", "set") and not getattr(c, "kind", "") == "table":
                    nm = store_name(frozenset(str(x).replace("kept:", "") for x in o.flags))
                    if nm is not None:
                        bad.add("R5")
                        log.viol("R5", c.entry, c.entry, "returns the very %s kept by %s: a caller changing it changes later results" % (
                            o.kind, nm.replace("cached:", "the cache of ").replace("global:", "") if nm != "recv" else "the object"),
                            key="R5|%s" % c.entry.split(": ")[-1].split("(")[0].split(".", 1)[-1])
    for r in ("R3",) if second else ("R1", "R2", "R3", "R4", "R5"):
        if r not in bad:
            log.ok(r)


def names(p):
    return ", ".join(sorted(x[2:] for x in p))


def attr_had(c, name):
    s = sess(c)
    r = c.sp.gr if isinstance(c, Case) else c.recv
    if r is None:
        return False
    o = s.I.get(s.st0, next(iter(r)).p)
    v = o.fields.get(name) if o is not None else None
    return bool(v) and not all(a.k == "none" for a in v)


def check_eq(I, log):
    """R6: user-defined equality of the spaces is at least as fine as what cached code reads"""
    for fam in "ACBD":
        for i, reg in enumerate(regimes(fam)):
            sp = Space(I, fam, reg)
            cls = sp.s.obj(sp.gr).cls
            f = I.class_lookup(cls, "__eq__", sp.s.st)
            user = f is not None and any(a.k == "fn" for a in f)
            if not user:
                log.ok("R6")
                continue
            sp2 = Space(I, fam, reg)
            o = sp2.s.method(sp2.gr, "__eq__", [sp2.s.call(sp2.cls, [AInt(sp2.m), AInt(sp2.N)]).ret])
            seen = {e.data[0] for e in o.events if e.kind == "read"}
            calls = set()
            need = {"_k", "_n", "_type"} & set(sp.s.obj(sp.gr).fields)
            if "__dict__" in str(seen) or any(a.k == "top" for a in o.ret):
                log.und("R6", reg[0], "equality is decided in a way the analysis does not follow")
                continue
            # reads through helper methods are events of the same call
            missing = {x for x in need if x not in seen}
            if fam in "AC":
                missing.discard("_type")
            if missing:
                log.viol("R6", reg[0], "%s (%s.__eq__)" % (next(iter(f)).p.mod.rel if hasattr(next(iter(f)).p, "mod") else "?", cls.name),
                         "two spaces that differ in %s compare equal, and caches are keyed by the space" % ", ".join(sorted(missing)))
            else:
                log.ok("R6")
