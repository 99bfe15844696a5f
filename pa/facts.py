"""The numeric facts of the Python analyser: those of sa.dom, with the
equalities solved before anything is proved."""

from sa import dom
from sa.dom import INF, Lin

SOLVED = {}


def solve(cons):
    """({atom: linear expression}, constraints) of the constraints with their
    equalities solved."""
    r = SOLVED.get(cons)
    if r is not None:
        return r
    have = set(cons)
    eqs = []
    rest = []
    for c in dict.fromkeys(cons):
        if dom.scale(c, -1) in have:
            eqs.append(c)
        else:
            rest.append(c)
    sub = {}
    done = set()
    for c in eqs:
        if dom.scale(c, -1) in done:
            continue
        done.add(c)
        c = dom.subst(c, sub)
        if c.__class__ is int:
            continue
        for a, k in reversed(c.t):
            if k in (1, -1):
                break
        else:
            rest.extend((c, dom.scale(c, -1)))
            continue
        v = dom.sub(dom.atom(a), dom.scale(c, k))
        m = {a: v}
        sub = {b: dom.subst(w, m) if w.__class__ is Lin else w
               for b, w in sub.items()}
        sub[a] = v
    out = []
    for c in rest:
        c = dom.subst(c, sub)
        if c.__class__ is Lin:
            out.append(c)
    r = sub, list(dict.fromkeys(out))
    if len(SOLVED) > 20000:
        SOLVED.clear()
    SOLVED[cons] = r
    return r


class Facts(dom.Facts):
    __slots__ = ()

    def copy(self):
        f = Facts.__new__(Facts)
        f.at = self.at
        f.b = dict(self.b)
        f.cons = list(self.cons)
        f.ne = self.ne
        return f

    def solved(self):
        """(substitution, facts) with the equalities solved."""
        sub, cons = solve(tuple(self.cons))
        f = dom.Facts.__new__(dom.Facts)
        f.at, f.b, f.ne = self.at, self.b, self.ne
        f.cons = cons
        extra = []
        for a, v in sub.items():
            lo, hi = self.ab(a)
            if v.__class__ is int:
                continue
            if lo == -INF and hi == INF:
                continue
            l, h = self.bounds(v)
            if lo > l:
                extra.append(dom.sub(lo, v))
            if hi < h:
                extra.append(dom.sub(v, hi))
        if extra:
            if all(len(x.t) == 1 for x in extra):
                f.b = dict(self.b)
                try:
                    for x in extra:
                        f._tighten(x)
                except dom.Infeasible:
                    pass
            else:
                f.cons = cons + extra
        return sub, f

    def le0(self, x, depth=4):
        if x.__class__ is int:
            return x <= 0
        if self.bounds(x)[1] <= 0:
            return True
        if not self.cons or depth == 0:
            return False
        sub, f = self.solved()
        y = dom.subst(x, sub)
        if y.__class__ is int:
            return y <= 0
        if f.bounds(y)[1] <= 0:
            return True
        if not f.cons:
            return False
        return f.prove(y, depth)
