"""The numeric abstract domain: linear expressions over atoms, intervals per
atom and a set of linear inequalities (a polyhedral domain whose entailment
test is goal-directed elimination: it never enumerates paths or models)."""

from math import gcd

from . import nat

INF = float('inf')
NATIVE = nat.load()


class AtomTable:
    """All atoms of one analysis.  Terms are hash-consed: the same operation
    applied to the same operands yields the same atom."""

    def __init__(self):
        self.lo = []
        self.hi = []
        self.name = []
        self.deps = []
        self.terms = {}
        self.term_of = {}
        self.exact = False
        self.rich = False      # entailment without limits on depth

    def new(self, name, lo, hi, deps=frozenset()):
        self.lo.append(lo)
        self.hi.append(hi)
        self.name.append(name)
        self.deps.append(deps)
        return len(self.lo) - 1

    def term(self, key, lo, hi, deps):
        a = self.terms.get(key)
        if a is None:
            a = self.new(key[0], lo, hi, deps)
            self.terms[key] = a
            self.term_of[a] = key
        return a


class Lin:
    __slots__ = ('c', 't', '_h')

    def __init__(self, c, t):
        self.c = c
        self.t = t
        self._h = None

    def __eq__(self, o):
        return (o.__class__ is Lin and self.c == o.c and self.t == o.t)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.t))
        return self._h

    def __repr__(self):
        s = ' '.join('%+d*a%d' % (k, a) for a, k in self.t)
        return '(%s %+d)' % (s, self.c)


def atom(a):
    return Lin(0, ((a, 1),))


def mk(c, t):
    return Lin(c, t) if t else c


def add(x, y):
    if x.__class__ is int:
        if y.__class__ is int:
            return x + y
        return Lin(x + y.c, y.t)
    if y.__class__ is int:
        if y == 0:
            return x
        return Lin(x.c + y, x.t)
    a = x.t
    b = y.t
    i = j = 0
    r = []
    n, m = len(a), len(b)
    while i < n and j < m:
        p, q = a[i], b[j]
        if p[0] == q[0]:
            k = p[1] + q[1]
            if k:
                r.append((p[0], k))
            i += 1
            j += 1
        elif p[0] < q[0]:
            r.append(p)
            i += 1
        else:
            r.append(q)
            j += 1
    if i < n:
        r.extend(a[i:])
    if j < m:
        r.extend(b[j:])
    return mk(x.c + y.c, tuple(r))


def scale(x, k):
    if x.__class__ is int:
        return x * k
    if k == 0:
        return 0
    if k == 1:
        return x
    return Lin(x.c * k, tuple((a, c * k) for a, c in x.t))


def sub(x, y):
    return add(x, scale(y, -1))


def subst(x, m):
    """Replace atoms by values (int or Lin) as given by dict m."""
    if x.__class__ is int:
        return x
    hit = False
    for a, _ in x.t:
        if a in m:
            hit = True
            break
    if not hit:
        return x
    r = x.c
    keep = []
    for a, k in x.t:
        if a in m:
            r = add(r, scale(m[a], k))
        else:
            keep.append((a, k))
    return add(r, mk(0, tuple(keep)))


class Infeasible(Exception):
    pass


class Facts:
    """Mutable set of facts; copy() before sharing."""

    __slots__ = ('at', 'b', 'cons', 'idx', 'ne')

    def __init__(self, at):
        self.at = at
        self.b = {}
        self.cons = []
        self.ne = frozenset()

    def copy(self):
        f = Facts.__new__(Facts)
        f.at = self.at
        f.b = dict(self.b)
        f.cons = list(self.cons)
        f.ne = self.ne
        return f

    def ab(self, a):
        r = self.b.get(a)
        if r is None:
            return self.at.lo[a], self.at.hi[a]
        return r

    def bounds(self, x):
        if x.__class__ is int:
            return x, x
        lo = hi = x.c
        b = self.b
        at = self.at
        for a, k in x.t:
            r = b.get(a)
            if r is None:
                l, h = at.lo[a], at.hi[a]
            else:
                l, h = r
            if k > 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        return lo, hi

    def tight(self, x, lo, hi):
        """Bounds of x, also by the constraints of the same linear form."""
        for c in self.cons:
            if c.t == x.t:
                # x.t + c.c <= 0
                hi = min(hi, x.c - c.c)
            elif len(c.t) == len(x.t) \
                    and all(a == b and k == -q
                            for (a, k), (b, q) in zip(c.t, x.t)):
                # -x.t + c.c <= 0
                lo = max(lo, x.c + c.c)
        return lo, hi

    def hi(self, x):
        return self.bounds(x)[1]

    def const(self, x):
        """The single value of x, or None."""
        if x.__class__ is int:
            return x
        lo, hi = self.bounds(x)
        return lo if lo == hi else None

    # -- entailment: is x <= 0 implied?
    def le0(self, x, depth=4):
        if x.__class__ is int:
            return x <= 0
        if self.bounds(x)[1] <= 0:
            return True
        if not self.cons or depth == 0:
            return False
        if self.prove(x, depth):
            return True
        if depth < 4 or not self.at.exact:
            return False
        from pa import lp
        return lp.le0(self, x)

    def prove(self, x, depth):
        if NATIVE is not None:
            return NATIVE.prove(x, self.cons, self.b, self.at.lo, self.at.hi,
                                depth)
        return self._prove(x, depth, set())

    def _prove(self, x, depth, seen):
        seen.add(x)
        sgn = {}
        for a, k in x.t:
            sgn[a] = k
        cand = []
        for f in self.cons:
            best = None
            for a, k in f.t:
                g = sgn.get(a)
                if g is not None and (g > 0) == (k > 0):
                    # goal' = |k|*goal - |g|*f
                    y = sub(scale(x, abs(k)), scale(f, abs(g)))
                    if y.__class__ is int:
                        if y <= 0:
                            return True
                        continue
                    n = 0
                    g2 = abs(y.c)
                    for _, kk in y.t:
                        g2 = gcd(g2, kk)
                    if g2 > 1:
                        y = Lin(y.c // g2, tuple((aa, kk // g2)
                                                 for aa, kk in y.t))
                    if y in seen:
                        continue
                    if self.bounds(y)[1] <= 0:
                        return True
                    cand.append((len(y.t), len(cand), y))
        if depth <= 1:
            return False
        cand.sort()
        for _, _, y in cand[:12]:
            if y in seen:
                continue
            if len(y.t) <= 6 and self._prove(y, depth - 1, seen):
                return True
        return False

    def eq0(self, x):
        if x.__class__ is int:
            return x == 0
        return self.le0(x) and self.le0(scale(x, -1))

    def upper(self, x):
        return self.bounds(x)[1]

    # -- adding facts
    def add_le0(self, x):
        """Assume x <= 0.  Raises Infeasible."""
        if x.__class__ is int:
            if x > 0:
                raise Infeasible
            return
        lo, hi = self.bounds(x)
        if hi <= 0:
            return
        if lo > 0:
            raise Infeasible
        g = 0
        for _, k in x.t:
            g = gcd(g, k)
        if g > 1:
            x = Lin(-((-x.c) // g), tuple((a, k // g) for a, k in x.t))
        if len(x.t) == 1:
            self._tighten(x)
            self._propagate()
            return
        if x in self.cons:
            return
        if self.cons and self.le0(add(scale(x, -1), 1), 4):
            raise Infeasible
        if self.cons and self.le0(x, 1):
            return
        self.cons.append(x)
        self._propagate()

    def _tighten(self, x):
        """Derive atom bounds from x <= 0; True if something changed."""
        ch = False
        for a, k in x.t:
            # k*a <= -(rest)
            lo, hi = self.ab(a)
            rest = x.c
            for a2, k2 in x.t:
                if a2 != a:
                    l2, h2 = self.ab(a2)
                    rest += k2 * (l2 if k2 > 0 else h2)
            if rest in (INF, -INF):
                continue
            if k > 0:
                v = (-rest) // k
                if v < hi:
                    hi = v
                    if lo > hi:
                        raise Infeasible
                    self.b[a] = (lo, hi)
                    ch = True
            else:
                # a >= ceil(rest / |k|)
                q = -((-rest) // (-k))
                if q > lo:
                    lo = q
                    if lo > hi:
                        raise Infeasible
                    self.b[a] = (lo, hi)
                    ch = True
        return ch

    def _propagate(self):
        for _ in range(3):
            ch = False
            for f in self.cons:
                if self._tighten(f):
                    ch = True
            if not ch:
                break

    def add_eq0(self, x):
        self.add_le0(x)
        self.add_le0(scale(x, -1))

    def drop(self, live):
        """Forget the atoms that are not live."""
        self.cons = [f for f in self.cons
                     if all(a in live for a, _ in f.t)]
        self.b = {a: v for a, v in self.b.items() if a in live}
        if self.ne:
            self.ne = frozenset(x for x in self.ne
                                if all(a in live for a, _ in x.t))

    def rewritten(self, sig, live):
        """The constraints over live atoms implied by self and the equalities
        atom == value of sig."""
        f = self.copy()
        for a, v in sig.items():
            x = sub(atom(a), v)
            f.cons.append(x)
            f.cons.append(scale(x, -1))
            f.b[a] = self.bounds(v)
        f.project(live, False)
        return f.cons

    def project(self, live, reduce=True):
        """Forget the atoms that are not live, keeping what they imply about
        the live ones (Fourier-Motzkin, bounded)."""
        cons = self.cons
        dead = set()
        for f in cons:
            for a, _ in f.t:
                if a not in live:
                    dead.add(a)
        had = bool(dead)
        while dead:
            # Equalities first: substitution.
            cs = set(cons)
            eq = None
            for f in cons:
                if scale(f, -1) in cs:
                    for a, k in f.t:
                        if a in dead and (k == 1 or k == -1):
                            eq = (a, k, f)
                            break
                    if eq:
                        break
            if eq:
                a, k, f = eq
                # k*a + rest == 0  =>  a = -rest/k
                rest = mk(f.c, tuple(p for p in f.t if p[0] != a))
                v = scale(rest, -k)
                m = {a: v}
                new = []
                seen = set()
                lo, hi = self.ab(a)
                extra = []
                if v.__class__ is Lin:
                    if hi < INF:
                        extra.append(sub(v, hi))
                    if lo > -INF:
                        extra.append(sub(lo, v))
                for c in cons + extra:
                    c = subst(c, m)
                    if c.__class__ is int or c in seen:
                        continue
                    c = self._norm(c)
                    if len(c.t) == 1:
                        self._tighten(c)
                        continue
                    if self.bounds(c)[1] <= 0 or c in seen:
                        continue
                    seen.add(c)
                    new.append(c)
                cons = new
                dead.discard(a)
                continue
            a = min(dead, key=lambda d: sum(
                1 for f in cons if any(x == d for x, _ in f.t)))
            dead.discard(a)
            pos, neg, rest = [], [], []
            for f in cons:
                for x, k in f.t:
                    if x == a:
                        (pos if k > 0 else neg).append((k, f))
                        break
                else:
                    rest.append(f)
            if not pos and not neg:
                continue
            lo, hi = self.ab(a)
            if hi < INF:
                pos.append((1, Lin(-hi, ((a, 1),))))
            if lo > -INF:
                neg.append((-1, Lin(lo, ((a, -1),))))
            if len(pos) * len(neg) > (100 if self.at.rich else 30):
                n = 10 if self.at.rich else 5
                pos.sort(key=lambda p: len(p[1].t))
                neg.sort(key=lambda p: len(p[1].t))
                pos, neg = pos[:n], neg[:n]
            new = set(rest)
            out = rest
            for kp, fp in pos:
                for kn, fn in neg:
                    y = add(scale(fp, -kn), scale(fn, kp))
                    if y.__class__ is int:
                        continue
                    y = self._norm(y)
                    if len(y.t) == 1:
                        self._tighten(y)
                        continue
                    if len(y.t) > 4 or y in new:
                        continue
                    if self.bounds(y)[1] <= 0:
                        continue
                    new.add(y)
                    out.append(y)
            cons = out
        # Drop constraints implied by another with the same left-hand side.
        best = {}
        for f in cons:
            c = best.get(f.t)
            if c is None or f.c > c.c:
                best[f.t] = f
        cons = list(best.values())
        if len(cons) > 3 and had and reduce:
            # Remove what the other constraints already imply.
            cons.sort(key=lambda f: (len(f.t), sum(abs(k) for _, k in f.t)))
            i = len(cons) - 1
            while i >= 0 and len(cons) > 1:
                f = cons.pop(i)
                self.cons = cons
                if not self.prove(f, 2):
                    cons.insert(i, f)
                i -= 1
        self.cons = cons
        self.b = {a: v for a, v in self.b.items() if a in live}
        if self.ne:
            self.ne = frozenset(x for x in self.ne
                                if all(a in live for a, _ in x.t))

    @staticmethod
    def _norm(y):
        g = 0
        for _, k in y.t:
            g = gcd(g, k)
        if g > 1:
            y = Lin(-((-y.c) // g), tuple((x, k // g) for x, k in y.t))
        return y

    def add_ne0(self, x):
        """Assume x != 0 (only useful at an end of its range)."""
        if x.__class__ is int:
            if x == 0:
                raise Infeasible
            return
        lo, hi = self.bounds(x)
        if lo == 0 and hi == 0:
            raise Infeasible
        if lo == 0:
            self.add_le0(add(scale(x, -1), 1))
        elif hi == 0:
            self.add_le0(add(x, 1))
        else:
            if self.cons:
                if self.le0(x):
                    if self.le0(scale(x, -1)):
                        raise Infeasible
                    self.add_le0(add(x, 1))
                    return
                if self.le0(scale(x, -1)):
                    self.add_le0(add(scale(x, -1), 1))
                    return
            self.ne = self.ne | {x}

    def known_ne0(self, x):
        lo, hi = self.bounds(x)
        if lo > 0 or hi < 0:
            return True
        if x in self.ne or scale(x, -1) in self.ne:
            return True
        return (self.le0(add(x, 1)) or self.le0(add(scale(x, -1), 1)))
