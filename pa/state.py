"""Abstract states of the Python analyser, their renaming and their join."""

from sa import dom
from sa.dom import INF, Infeasible, Lin
from .facts import Facts
from .values import (Acc, B, Code, K, Ref, T, Tup, is_int, mkbytes)


class Obj:
    """A heap object: its class (a Code or a model) and its fields."""
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls = cls
        self.f = f


class State:
    __slots__ = ('frames', 'cur', 'heap', 'facts', 'eqs', 'neqs', 'truth',
                 'ghost')

    def __init__(self, at):
        self.frames = []
        self.cur = 0
        self.heap = {}
        self.facts = Facts(at)
        self.eqs = {}
        self.neqs = frozenset()
        self.truth = {}
        self.ghost = {}

    def copy(self):
        s = State.__new__(State)
        s.frames = [dict(f) for f in self.frames]
        s.cur = self.cur
        s.heap = dict(self.heap)
        s.facts = self.facts.copy()
        s.eqs = dict(self.eqs)
        s.neqs = self.neqs
        s.truth = dict(self.truth)
        s.ghost = dict(self.ghost)
        return s

    @property
    def env(self):
        return self.frames[self.cur]

    def get(self, ref, name, default=None):
        return self.heap[ref.oid].f.get(name, default)

    def put(self, ref, name, v):
        o = self.heap[ref.oid]
        f = dict(o.f)
        f[name] = v
        self.heap[ref.oid] = Obj(o.cls, f)

    def cls(self, ref):
        return self.heap[ref.oid].cls


def product(at, a, b):
    """The product of two linear expressions."""
    if a.__class__ is int:
        return dom.scale(b, a)
    if b.__class__ is int:
        return dom.scale(a, b)
    r = a.c * b.c
    for x, k in a.t:
        r = dom.add(r, dom.scale(dom.atom(x), k * b.c))
    for x, k in b.t:
        r = dom.add(r, dom.scale(dom.atom(x), k * a.c))
    for x, k in a.t:
        for y, m in b.t:
            p, q = sorted((dom.atom(x), dom.atom(y)), key=lambda z: z.t)
            t = dom.atom(at.term(('mul', p, q), -INF, INF, frozenset()))
            r = dom.add(r, dom.scale(t, k * m))
    return r


class Renamer:
    """Deep renaming of atoms (dict atom -> Lin/int), references (dict oid ->
    oid) and phi terms (dict T -> T)."""

    def __init__(self, at, atoms, oids, terms):
        self.at = at
        self.atoms = atoms
        self.oids = oids
        self.terms = terms
        self.memo = {}

    def lin(self, x):
        if x.__class__ is int:
            return x
        m = {}
        for a, _ in x.t:
            v = self.atom(a)
            if v is not None:
                m[a] = v
        return dom.subst(x, m) if m else x

    def atom(self, a):
        if a in self.atoms:
            return self.atoms[a]
        k = ('a', a)
        if k in self.memo:
            return self.memo[k]
        key = self.at.term_of.get(a)
        r = None
        if key is not None:
            new = tuple(self.val(x) for x in key)
            if new != key and key[0] == 'mul':
                r = product(self.at, new[1], new[2])
            elif new != key:
                r = dom.atom(self.at.term(new, self.at.lo[a], self.at.hi[a],
                                          frozenset()))
        self.memo[k] = r
        return r

    def val(self, v):
        c = v.__class__
        if c is Lin:
            return self.lin(v)
        if c is T:
            r = self.memo.get(v)
            if r is None:
                r = self.terms.get(v)
                if r is None:
                    new = tuple([self.val(x) for x in v.args])
                    r = v if new == v.args else T(v.op, new, v.kind)
                self.memo[v] = r
            return r
        if c is Ref:
            if v.oid in self.oids:
                return Ref(self.oids[v.oid])
            return v
        if c is B:
            return B(tuple([self.val(x) for x in v.parts]))
        if c is Tup:
            return Tup([self.val(x) for x in v.items])
        if c is tuple:
            return tuple([self.val(x) for x in v])
        if c is Code and v.what == 'bound':
            return Code('bound', self.val(v.key), None)
        return v

    def state(self, s):
        n = State.__new__(State)
        n.cur = s.cur
        n.frames = [{k: self.val(v) for k, v in f.items()} for f in s.frames]
        n.heap = {self.oids.get(o, o): Obj(b.cls, {k: self.val(v) for k, v
                                                   in b.f.items()})
                  for o, b in s.heap.items()}
        f = Facts(self.at)
        f.cons = [y for y in (self.lin(x) for x in s.facts.cons)
                  if y.__class__ is Lin]
        for a, bd in s.facts.b.items():
            v = self.atom(a)
            if v is None:
                f.b[a] = bd
            elif v.__class__ is Lin and len(v.t) == 1 and v.c == 0 \
                    and v.t[0][1] == 1:
                f.b[v.t[0][0]] = bd
        f.ne = frozenset(y for y in (self.lin(x) for x in s.facts.ne)
                         if y.__class__ is Lin)
        n.facts = f
        n.eqs = {self.val(k): v for k, v in s.eqs.items()}
        n.neqs = frozenset((self.val(k), v) for k, v in s.neqs)
        n.truth = {self.val(k): v for k, v in s.truth.items()}
        n.ghost = {k: self.val(v) for k, v in s.ghost.items()}
        return n


def reach(s, fn):
    """Visit all values of the state in a deterministic order: fn(path, v) for
    every slot; heap objects are entered once, by their first path."""
    seen = set()

    def val(path, v):
        c = v.__class__
        if c is Ref:
            if v.oid in seen or v.oid not in s.heap:
                return
            seen.add(v.oid)
            fn(('o',) + path, v)
            f = s.heap[v.oid].f
            for k in sorted(f, key=str):
                slot(path + (k,), f[k])
        elif c is T:
            for i, x in enumerate(v.args):
                if x.__class__ in (Ref, T, B, Tup, tuple):
                    val(path + (i,), x)
        elif c is B:
            for i, x in enumerate(v.parts):
                val(path + (i,), x)
        elif c is Tup or c is tuple:
            for i, x in enumerate(v.items if c is Tup else v):
                val(path + (i,), x)
        elif c is Code and v.what == 'bound':
            for i, x in enumerate(v.key):
                val(path + (i,), x)

    def slot(path, v):
        fn(path, v)
        val(path, v)

    for k in sorted(s.ghost):
        slot(('g', k), s.ghost[k])
    for i, f in enumerate(s.frames):
        for k in sorted(f):
            slot(('v', i, k), f[k])
    return seen


def align(at, H, N):
    """N with its objects named as the objects H has in the same places."""
    there = reach(N, lambda path, v: None)
    oids = {}
    seen = set()

    def pair(a, b):
        ca = a.__class__
        if ca is not b.__class__:
            return
        if ca is Ref:
            if a.oid in seen:
                return
            seen.add(a.oid)
            if a.oid != b.oid:
                if b.oid in oids or a.oid in there or isinstance(b.oid, str):
                    return
                oids[b.oid] = a.oid
            if a.oid in H.heap and b.oid in N.heap:
                fa, fb = H.heap[a.oid].f, N.heap[b.oid].f
                for k in sorted(fa, key=str):
                    if k in fb:
                        pair(fa[k], fb[k])
        elif ca is T:
            if a.op == b.op:
                for x, y in zip(a.args, b.args):
                    pair(x, y)
        elif ca is B:
            for x, y in zip(a.parts, b.parts):
                pair(x, y)
        elif ca is Tup:
            for x, y in zip(a.items, b.items):
                pair(x, y)
        elif ca is tuple:
            for x, y in zip(a, b):
                pair(x, y)
    for k in sorted(H.ghost):
        if k in N.ghost:
            pair(H.ghost[k], N.ghost[k])
    for fa, fb in zip(H.frames, N.frames):
        for k in sorted(fa):
            if k in fb:
                pair(fa[k], fb[k])
    if not oids:
        return N
    for old, new in oids.items():
        # What had the name is unreachable now.
        N.heap.pop(new, None)
    return Renamer(at, {}, oids, {}).state(N)


def live_terms(s):
    out = set()

    def add(v):
        c = v.__class__
        if c is T:
            if v in out:
                return
            out.add(v)
            for x in v.args:
                add(x)
        elif c is B:
            for x in v.parts:
                add(x)
        elif c is Tup:
            for x in v.items:
                add(x)
        elif c is tuple:
            for x in v:
                add(x)
        elif c is Code and v.what == 'bound':
            for x in v.key:
                add(x)
    for f in s.frames:
        for v in f.values():
            add(v)
    for o in s.heap.values():
        for v in o.f.values():
            add(v)
    for v in s.ghost.values():
        add(v)
    return out


def tag(s, v, seen=()):
    c = v.__class__
    if c is K:
        if isinstance(v.v, (bytes, bytearray)):
            return 'any'
        return v
    if is_int(v):
        return 'int'
    if c is T or c is B:
        return 'any'
    if c is Ref:
        if v.oid not in s.heap:
            return 'dead'
        return ('ref', str(s.heap[v.oid].cls))
    if c is Tup:
        return tuple(tag(s, x) for x in v.items)
    if c is Code:
        return repr(v)
    return 'any'


def partition(s):
    """States of the same partition are joined at loop heads."""
    key = [('cur', s.cur, len(s.frames))]

    def fn(path, v):
        if path[0] == 'o':
            return
        if path[0] == 'g' and path[1].startswith('#'):
            key.append((path, v))
            return
        t = tag(s, v)
        if t != 'any':
            key.append((path, t))
    reach(s, fn)
    key.append(frozenset(s.eqs.items()))
    key.append(frozenset(s.truth.items()))
    return tuple(key)


def gc(s):
    live = live_terms(s)
    s.eqs = {k: v for k, v in s.eqs.items() if k in live}
    s.neqs = frozenset(x for x in s.neqs if x[0] in live)

    def alive(t):
        return all(x.__class__ not in (T,) or x in live for x in t.args) \
            if t not in live else True
    s.truth = {k: v for k, v in s.truth.items() if alive(k)}


def canonical(s):
    """A key that is equal for states that only differ in their facts."""
    names = {}

    def val(v):
        c = v.__class__
        if c is Ref:
            n = names.get(v.oid)
            if n is None:
                n = names[v.oid] = len(names)
                o = s.heap.get(v.oid)
                if o is None:
                    return ('dead', v.oid)
                return ('new', n, str(o.cls), tuple(
                    (k, val(o.f[k])) for k in sorted(o.f, key=str)))
            return ('ref', n)
        if c is B:
            return ('B',) + tuple([val(x) for x in v.parts])
        if c is Tup:
            return ('Tup',) + tuple([val(x) for x in v.items])
        if c is tuple:
            return tuple([val(x) for x in v])
        if c is T and v.op in REFS:
            return (v.op,) + tuple([val(x) for x in v.args])
        if c is Code and v.what == 'bound':
            return ('bound', val(v.key))
        return v
    key = [s.cur, s.neqs, frozenset(s.eqs.items()),
           frozenset(s.truth.items())]
    for k in sorted(s.ghost):
        key.append((k, val(s.ghost[k])))
    for f in s.frames:
        key.append(len(f))
        for k in sorted(f):
            key.append((k, val(f[k])))
    return tuple(key)


REFS = ('enumerate', 'zip', 'fileno', 'slicer', 'reversed')


def merge_facts(a, b):
    """Let a hold what holds in both a and b."""
    fa, fb = a.facts, b.facts
    cons = [c for c in fa.cons if fb.le0(c)]
    cons += [c for c in fb.cons if c not in cons and fa.le0(c)]
    bd = {}
    for x in set(fa.b) | set(fb.b):
        l1, h1 = fa.ab(x)
        l2, h2 = fb.ab(x)
        bd[x] = (min(l1, l2), max(h1, h2))
    ne = frozenset(x for x in fa.ne | fb.ne
                   if fa.known_ne0(x) and fb.known_ne0(x))
    f = Facts(fa.at)
    f.cons = cons
    f.b = bd
    f.ne = ne
    a.facts = f
    for o, ob in b.heap.items():
        a.heap.setdefault(o, ob)


class Joiner:
    """The join of a loop head state H (may be the entry state) with a back
    edge state N."""

    def __init__(self, it, key, H, N):
        self.it = it
        self.at = it.at
        self.key = key
        self.H = H
        self.N = N
        self.changed = False
        self.new = {}           # new phi atom -> (value in H, value in N)
        self.old = {}           # phi atom already there -> value in N
        self.slots = []         # (joined, in H, in N) integer slots

    # -- accumulators: before N's renaming
    def strip(self):
        it = self.it

        def field(h, n, path):
            if h.__class__ is B and n.__class__ in (B, K, T):
                if n.__class__ is not B:
                    n = mkbytes((n,))
                p = self.parts(h.parts, n.parts, path)
                return None if p is None else (B(p[0]), B(p[1]))
            if h.__class__ is tuple and n.__class__ is tuple:
                return self.parts(h, n, path)
            return None

        H, N = self.H, self.N
        for o, hb in H.heap.items():
            nb = N.heap.get(o)
            if nb is None or nb.cls != hb.cls:
                continue
            fh, fn = dict(hb.f), dict(nb.f)
            ch = False
            for k in fh:
                if k in fn and fh[k] != fn[k]:
                    r = field(fh[k], fn[k], (o, k))
                    if r is not None:
                        fh[k], fn[k] = r
                        ch = True
            if ch:
                H.heap[o] = Obj(hb.cls, fh)
                N.heap[o] = Obj(nb.cls, fn)
        for i, (eh, en) in enumerate(zip(H.frames, N.frames)):
            for k in list(eh):
                if k in en and eh[k] != en[k]:
                    r = field(eh[k], en[k], ('v', i, k))
                    if r is not None:
                        eh[k], en[k] = r
        for k in list(H.ghost):
            if k in N.ghost and H.ghost[k] != N.ghost[k]:
                r = field(H.ghost[k], N.ghost[k], ('g', k))
                if r is not None:
                    H.ghost[k], N.ghost[k] = r
        del it

    def parts(self, h, n, path):
        acc = Acc(self.key + (path,))
        if len(h) == 1 and h[0].__class__ is T and h[0].op == 'phi' \
                and h[0].args[0].v == repr(self.key):
            return None
        if h and h[-1] == acc:
            if n[:len(h)] == h:
                self.it.accs.setdefault(acc.key, set()).add(n[len(h):])
                return h, h
            return None
        if n[:len(h)] == h:
            rest = n[len(h):]
        elif (h and n and n[:len(h) - 1] == h[:-1] and h[-1].__class__ is K
              and n[len(h) - 1].__class__ is K
              and n[len(h) - 1].v.startswith(h[-1].v)):
            rest = (K(n[len(h) - 1].v[len(h[-1].v):]),) + n[len(h):]
        else:
            return None
        self.it.accs.setdefault(acc.key, set()).add(rest)
        self.it.acc_init[acc.key] = h
        self.changed = True
        h = h + (acc,)
        return h, h

    # -- values
    def phi(self, path, a, b, kind=None):
        if kind == 'int':
            k = ('phi', self.key, path)
            x = self.at.terms.get(k)
            if x is None:
                x = self.at.new('phi%s' % (path[-1],), -INF, INF)
                self.at.terms[k] = x
                self.it.phis[x] = {'key': self.key, 'path': path,
                                   'init': a, 'next': set()}
            v = dom.atom(x)
            if a == v:
                self.old[x] = b
            else:
                self.new[x] = (a, b)
                self.changed = True
            return v
        t = T('phi', (K(repr(self.key)), K(repr(path))), kind or 'any')
        if a != t and not (a.__class__ is B and a.parts == (t,)):
            self.changed = True
        return t

    def val(self, path, a, b):
        if a == b:
            if is_int(a):
                self.slots.append((a, a, b))
            return a
        ia, ib = is_int(a), is_int(b)
        if ia and ib:
            v = self.phi(path, a, b, 'int')
            self.slots.append((v, a, b))
            return v
        ca, cb = a.__class__, b.__class__
        if ca is Tup and cb is Tup and len(a.items) == len(b.items):
            return Tup([self.val(path + (i,), x, y) for i, (x, y)
                        in enumerate(zip(a.items, b.items))])
        ka = 'bytes' if ca is B else a.kind if ca is T else 'any'
        kb = 'bytes' if cb is B else b.kind if cb is T else 'any'
        if ca is K and isinstance(a.v, bytes):
            ka = 'bytes'
        if cb is K and isinstance(b.v, bytes):
            kb = 'bytes'
        r = self.phi(path, a, b, ka if ka == kb else 'any')
        return B((r,)) if ka == kb == 'bytes' and ca is B else r

    def join(self):
        """The joined state; self.changed tells whether it is larger than
        H."""
        H, N = self.H, self.N
        J = State.__new__(State)
        J.cur = H.cur
        J.frames = []
        for i, (eh, en) in enumerate(zip(H.frames, N.frames)):
            e = {}
            for k in eh:
                if k in en:
                    e[k] = self.val(('v', i, k), eh[k], en[k])
                else:
                    self.changed = True
            J.frames.append(e)
        J.ghost = {}
        for k in H.ghost:
            J.ghost[k] = self.val(('g', k), H.ghost[k],
                                  N.ghost.get(k, K('#none')))
        J.heap = {}
        live = reach(H, lambda path, v: None)
        for o, hb in H.heap.items():
            nb = N.heap.get(o)
            if o not in live and not isinstance(o, str):
                # Not in use, or only by the expression being evaluated.
                J.heap[o] = hb
                continue
            if nb is None:
                self.changed = True
                continue
            f = {}
            for k in set(hb.f) | set(nb.f):
                if k in hb.f and k in nb.f:
                    a, b = hb.f[k], nb.f[k]
                    if a.__class__ is tuple and a != b:
                        f[k] = (self.phi((o, k), T('items', (a,)),
                                         T('items', (b,)), 'seq'),) \
                            if a != (T('phi', (K(repr(self.key)),
                                               K(repr((o, k)))), 'seq'),) \
                            else a
                    else:
                        f[k] = self.val((o, k), a, b)
                else:
                    self.changed = True
            J.heap[o] = Obj(hb.cls, f)
        J.eqs = {k: v for k, v in H.eqs.items() if N.eqs.get(k) == v}
        J.neqs = H.neqs & N.neqs
        J.truth = {k: v for k, v in H.truth.items() if N.truth.get(k) == v}
        if (len(J.eqs), len(J.neqs), len(J.truth)) != (
                len(H.eqs), len(H.neqs), len(H.truth)):
            self.changed = True
        J.facts = self.facts()
        return J

    def facts(self):
        H, N = self.H.facts, self.N.facts
        F = Facts(self.at)
        sub = dict(self.old)
        sub.update({p: b for p, (_, b) in self.new.items()})
        own = set(sub)
        ren = Renamer(self.at, sub, {}, {})
        # Bounds.
        for a, (lo, hi) in H.b.items():
            if a in self.new:
                continue
            v = ren.lin(dom.atom(a))
            l2, h2 = N.bounds(v)
            if l2 < lo:
                self.changed = True
                lo = -INF if a in own else min(lo, l2)
            if h2 > hi:
                self.changed = True
                hi = INF if a in own else max(hi, h2)
            if lo != -INF or hi != INF:
                F.b[a] = (lo, hi)
        # Constraints of H.
        for c in H.cons:
            if any(a in self.new for a, _ in c.t):
                continue
            if N.le0(ren.lin(c)):
                F.cons.append(c)
            else:
                self.changed = True
        for x in H.ne:
            if N.known_ne0(ren.lin(x)):
                F.ne = F.ne | {x}
            else:
                self.changed = True
        # New relations.
        pool = []
        seen = set()
        for j, a, b in self.slots:
            if j not in seen:
                seen.add(j)
                pool.append((j, a, b))
        for p, (va, vb) in self.new.items():
            x = dom.atom(p)
            for c in (0, 1):
                if H.le0(dom.sub(c, va)) and N.le0(dom.sub(c, vb)):
                    F.b[p] = (max(c, F.b.get(p, (-INF, INF))[0]), INF)
            self.relate(F, x, va, vb, pool)
        return F

    def relate(self, F, x, va, vb, pool):
        H, N = self.H.facts, self.N.facts
        for j, a, b in pool:
            if j == x:
                continue
            if j.__class__ is int and j in (0, 1):
                continue
            da, db = dom.sub(va, a), dom.sub(vb, b)
            ok = False
            if da == db and j.__class__ is not int:
                F.cons.append(dom.sub(dom.sub(x, j), da))
                F.cons.append(dom.sub(da, dom.sub(x, j)))
                ok = True
            sa, sb = dom.add(va, a), dom.add(vb, b)
            if sa == sb and j.__class__ is not int:
                F.cons.append(dom.sub(dom.add(x, j), sa))
                F.cons.append(dom.sub(sa, dom.add(x, j)))
            if ok:
                continue
            # x and j change at different constant rates
            ra, rb = dom.sub(vb, va), dom.sub(b, a)
            if ra.__class__ is int and rb.__class__ is int and ra and rb \
                    and abs(ra) != abs(rb):
                y = dom.sub(dom.scale(x, rb), dom.scale(j, ra))
                k = dom.sub(dom.scale(va, rb), dom.scale(a, ra))
                F.cons.append(dom.sub(y, k))
                F.cons.append(dom.sub(k, y))
                continue
            # One is counted, the other grows by a constant amount.
            for p, q, p0, q0, rp, rq in ((x, j, va, a, ra, rb),
                                         (j, x, a, va, rb, ra)):
                if rp == 1 and rq.__class__ is Lin and p.__class__ is Lin:
                    y = dom.sub(q, dom.add(q0, product(
                        self.at, dom.sub(p, p0), rq)))
                    F.cons.append(y)
                    F.cons.append(dom.scale(y, -1))
            d = dom.sub(x, j)
            if d.__class__ is int:
                continue
            for sg in (1, -1):
                ea, eb = dom.scale(da, sg), dom.scale(db, sg)
                if H.le0(ea) and N.le0(eb):
                    k = 1 if H.le0(dom.add(ea, 1)) \
                        and N.le0(dom.add(eb, 1)) else 0
                    F.cons.append(dom.add(dom.scale(d, sg), k))
        F.cons = list(dict.fromkeys(c for c in F.cons
                                    if c.__class__ is Lin))
