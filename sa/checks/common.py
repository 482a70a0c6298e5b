from ..surface import *
from ..surface import MCase, Case    # noqa


def evs(case, *kinds):
    return [e for e in case.out.events if e.kind in kinds]


def where(ev):
    return fmt(ev.loc)


def runs(c):
    """the call was analysed to some outcome"""
    return c.out.normal or bool(c.out.raises)


def sess(c):
    return c.sp.s if isinstance(c, Case) else c.s


def result_objs(s, v):
    """(atom, Obj or None) of a result"""
    out = []
    for a in v:
        out.append((a, s.I.get(s.st, a.p) if a.k == "ref" else None))
    return out


def reach_values(s, v, attrs=True):
    """every AV reachable from v (containers, instance attributes)"""
    seen = set()
    work = [v]
    while work:
        x = work.pop()
        yield x
        for a in x:
            if a.k == "ref" and a.p not in seen:
                seen.add(a.p)
                o = s.I.get(s.st, a.p)
                if o is None:
                    continue
                if attrs or o.kind != "inst":
                    work.extend(o.fields.values())
                if o.items is not None:
                    work.extend(o.items)
                work.append(o.elem)
                work.append(o.keyl)


def all_labels(s, v):
    l = set()
    for x in reach_values(s, v):
        for a in x:
            l |= a.l
    return l


CASE_LIMIT = 25
TASK_LIMIT = 170


class Partial:
    """what was seen of a call whose analysis ran out of budget: its effects so far, no outcome"""

    def __init__(self, I, entry):
        from ..session import Outcome
        self.entry = entry
        self.out = Outcome(EMPTY, None, [], list(I.sink.values()))
        self.s = Session(I)
        self.s.st0 = self.s.st.copy()
        self.recv = None
        self.args = []
        self.kind = "partial"


def foreach(I, task, log, rule, gen, fn, limit=None, partial=False):
    """analyse every case of gen, hand it to fn; engine trouble is an undecided obligation.
    partial: fn judges effects only, and may judge those of an analysis that was cut short"""
    import time
    limit = limit or CASE_LIMIT
    t0 = time.time()
    for th in gen:
        holder = []
        left = TASK_LIMIT - (time.time() - t0)
        name = "%s: %s" % (task, case_name(th))
        log.count("entry cases")
        if time.time() - t0 > 60 and any(r["status"] == "violation" for r in log.recs):
            left = 0        # the verdict is settled; do not spend minutes on listing every entry
        if left < 1:
            log.und(rule, name, "the time set aside for this family was used up")
            continue

        def go():
            c = th()
            holder.append(c)
            if not runs(c):
                log.und(rule, c.entry, "the analysis found no outcome")
                return True
            fn(c)
            return True
        I.sink = {}
        if log.guard(rule, name, go, int(min(limit, max(1, left)))) is None:
            I.reset()
            if partial and not holder:
                log.guard(rule, name, lambda: fn(Partial(I, name)), 20)


def case_name(th):
    d = th.__defaults__ or ()
    c = [x.cell_contents for x in (th.__closure__ or ()) if isinstance(x.cell_contents, (str, tuple))]
    return ".".join(str(x) for x in list(d) + c if x not in ("", None) and not callable(x)) or "case"
