"""Emptiness of a polyhedron (the entailment test of the polyhedral domain
without limits on depth), by the dual simplex method with Bland's rule."""

from fractions import Fraction

from sa import dom

INF = dom.INF


def empty(facts, extra=()):
    """Do the facts and x <= 0 for every x of extra have no solution?"""
    rows = list(facts.cons)
    for x in extra:
        if x.__class__ is int:
            if x > 0:
                return True
        else:
            rows.append(x)
    # Only what is connected to the extra.
    if extra:
        want = {a for x in extra if x.__class__ is not int for a, _ in x.t}
        while True:
            keep = [r for r in rows if any(a in want for a, _ in r.t)]
            new = {a for r in keep for a, _ in r.t}
            if new <= want:
                break
            want |= new
        rows = keep
    atoms = sorted({a for r in rows for a, _ in r.t})
    cols = []
    base = {}
    for a in atoms:
        lo, hi = facts.ab(a)
        if lo == -INF:
            if hi == INF:
                cols += [(a, 1), (a, -1)]
                base[a] = 0
            else:
                cols.append((a, -1))
                base[a] = hi
        else:
            cols.append((a, 1))
            base[a] = lo
    index = {}
    for i, (a, s) in enumerate(cols):
        index.setdefault(a, []).append((i, s))
    table = []
    for r in rows:
        row = {}
        b = -r.c
        for a, k in r.t:
            b -= k * base[a]
            for i, s in index[a]:
                row[i] = Fraction(k * s)
        table.append((row, Fraction(b)))
    for a in atoms:
        lo, hi = facts.ab(a)
        if lo != -INF and hi != INF:
            i, _ = index[a][0]
            table.append(({i: Fraction(1)}, Fraction(hi - lo)))
    n = len(cols)
    basis = [n + j for j in range(len(table))]
    for _ in range(2000):
        bad = [j for j in range(len(table)) if table[j][1] < 0]
        if not bad:
            return False
        j = min(bad, key=lambda q: basis[q])
        row, b = table[j]
        neg = [i for i, v in row.items() if v < 0]
        if not neg:
            return True
        e = min(neg)
        p = row[e]
        # Express column e by the basic variable of row j.
        new = {i: v / p for i, v in row.items() if i != e}
        new[basis[j]] = 1 / p
        nb = b / p
        for q in range(len(table)):
            if q == j:
                continue
            r2, b2 = table[q]
            k = r2.get(e)
            if not k:
                continue
            r3 = dict(r2)
            del r3[e]
            for i, v in new.items():
                w = r3.get(i, 0) - k * v
                if w:
                    r3[i] = w
                else:
                    r3.pop(i, None)
            table[q] = (r3, b2 - k * nb)
        table[j] = (new, nb)
        basis[j] = e
    return False


def le0(facts, x):
    """Do the facts imply x <= 0?"""
    return empty(facts, (dom.sub(1, x),))


def eq0(facts, x):
    return le0(facts, x) and le0(facts, dom.scale(x, -1))
