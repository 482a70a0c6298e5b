"""Every operation returns the kind of value it promises."""
from .common import *

EXPLAIN = ("Abstract type analysis of every public operation over every declared input form: the set of kinds the result can have, "
           "and of what it contains, is compared with what the operation promises.  Unknown kinds are undecided.")
RULES = {"R1": "the result is of the promised kind",
         "R2": "what the result contains is of the promised kind (the expression of a combination, the parts of a class)"}
MIN = 1
LCOPS = tuple(o for o in OPS if o != "schub_type")
SCALARS = {"none", "bool", "int", "float", "str"}

# promised kinds: a class name, or int/bool/str/sym/none/list; elements after a colon
SPACE = {o: "LinearCombination" for o in LCOPS}
SPACE.update({"schub_type": "int", "schub_classes": "list:Schur", "generators": "list:Schur", "point_class": "Schur",
              "degree_q": "int", "get_type_data": "list", "__str__": "str", "clone": "self"})
VALUE = {"LinearCombination.__str__": "str", "LinearCombination.__repr__": "str", "LinearCombination.__len__": "int",
         "LinearCombination.has_part_zero_padding": "bool", "LinearCombination.is_valid": "bool",
         "LinearCombination.apply": "LinearCombination", "LinearCombination.apply2": "LinearCombination",
         "LinearCombination.is_operator": "bool", "LinearCombination.draw_ascii_partition": "none",
         "Schur.__str__": "str", "Schur.__repr__": "str", "Schur.__hash__": "int", "Schur.symbol": "sym",
         "Schur.partition": "list", "Schur.has_part_zero_padding": "bool", "Schur.print_partition": "none",
         "Schur.latex": "str", "Schur.latex_standalone": "str", "Schur.to_polinomial_str": "str", "Schur.export_png": "none",
         "Schur.__eq__": "bool", "Schur.__lt__": "bool", "Partition.__str__": "str", "Partition.__repr__": "str",
         "Partition.draw": "none", "Partition.is_in_range": "bool", "yd": "none"}
VALUE.update({"LinearCombination.list_schur_oprands": "Schur|list|none", "LinearCombination.schur_expansion": "list|tuple",
              "Schur.plot_partition": "tuple", "Partition.remove_rim_hooks": "tuple",
              "part_clip": "list", "is_valid_part": "bool", "skew_partition_height": "int", "part_conj": "list", "part_gen": "list",
              "part_itr": "list|none", "part_itr_between": "list|none", "part_len": "int", "padding_right": "list",
              "partition_to_ascii": "list", "embed_partition": "list", "spec2num": "int"})
TABLE = {"mult": "LinearCombination", "MultTable": "MultTable", "QMultTable": "QMultTable", "print": "none", "__str__": "str", "__repr__": "str"}


def tasks(tier):
    return TASKS


def promised(c):
    if isinstance(c, Case):
        return SPACE.get(c.op)
    e = c.entry
    if c.kind == "ctor":
        return e.split("(")[0]
    if c.kind == "operator":
        a, _, b = e.split(" ")
        if "LinearCombination" in (a, b) or "lc" in (a, b):
            return "sym|LinearCombination" if "Schur" in (a, b) or "schur" in (a, b) else "LinearCombination"
        return "sym|LinearCombination"
    if c.kind.startswith("table"):
        return TABLE.get(e.split(": ")[1].split("(")[0].split(".")[-1])
    return VALUE.get(e.split(" of a pair")[0].split("(")[0])


def kind(s, a, st=None):
    """name of the kind of an atom, None when unknown"""
    if a.k == "ref":
        o = s.I.get(s.st, a.p)
        if o is None:
            return None
        if o.kind == "inst":
            return getattr(o.cls, "name", None)
        return o.kind
    if a.k in ("top", "extobj", "ext"):
        return None
    return a.k


def bases(s, a):
    o = s.I.get(s.st, a.p) if a.k == "ref" else None
    if o is None or o.kind != "inst":
        return ()
    try:
        return [x.name for x in o.cls.mro]
    except Exception:
        return (getattr(o.cls, "name", None),)


def run(I, task, log, tier):
    def fn(c):
        want = promised(c)
        if want is None:
            return
        if isinstance(c, Case) and unsupported(c.fam, c.op):
            return
        if not c.out.normal:
            return
        s = sess(c)
        judge(log, s, c.entry, c.out.ret, want, c)
    foreach(I, task, log, "R1", every_case(I, task, helpers=True), fn)


def short(e):
    x = e.split(": ")[-1]
    return x.split(".", 1)[-1] if "." in x.split("(")[0] else x


def judge(log, s, entry, v, want, c):
    top, _, elem = want.partition(":")
    if top == "self":
        top = c.sp.cls and kind(s, next(iter(c.sp.gr)))
    okk = set(top.split("|"))
    bad = False
    for a in v:
        k = kind(s, a)
        if k is None:
            log.und("R1", entry, "the kind of the result is not known")
            bad = True
            continue
        if k not in okk and not okk & set(bases(s, a)) and not (k == "bool" and "int" in okk):
            bad = True
            log.viol("R1", entry, entry, "the result can be %s instead of %s" % (article(k), " or ".join(map(article, sorted(okk)))),
                     key="R1|%s|%s" % (short(entry), k))
    if not bad:
        log.ok("R1")
    bad = False
    seen = False
    for a in v:
        o = s.I.get(s.st, a.p) if a.k == "ref" else None
        if o is None:
            continue
        for what, x, allowed in parts_of(s, o, elem):
            seen = True
            k = kind(s, x)
            if k is not None and k not in allowed:
                bad = True
                log.viol("R2", entry, entry, "%s can be %s" % (what, article(k)), key="R2|%s|%s|%s" % (short(entry), what, k))
    if seen and not bad:
        log.ok("R2")


def parts_of(s, o, elem, depth=0):
    nm = getattr(o.cls, "name", "") if o.kind == "inst" else ""
    if nm == "LinearCombination":
        for f in o.fields.values():
            for x in f:
                yield "the expression of the combination", x, ("sym",)
    elif nm == "Schur":
        for f in o.fields.values():
            for x in f:
                if x.k in SCALARS - {"str"}:
                    yield "the partition of the class", x, ("list",)
                oo = s.I.get(s.st, x.p) if x.k == "ref" else None
                if oo is not None and oo.kind in ("list", "tuple"):
                    for y in elems(oo):
                        yield "a part of the class", y, ("int", "list", "tuple", "bool")
    elif elem and o.kind in ("list", "tuple"):
        for x in elems(o):
            yield "an element of the list", x, (elem,)
            oo = s.I.get(s.st, x.p) if x.k == "ref" else None
            if oo is not None and depth < 2:
                yield from parts_of(s, oo, "", depth + 1)


def elems(o):
    out = list(o.elem)
    for i in o.items or ():
        out += list(i)
    return out


def article(k):
    return {"none": "None", "int": "an integer", "sym": "a bare expression", "str": "text", "list": "a list",
            "bool": "a boolean"}.get(k, "a " + str(k))
