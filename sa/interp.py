"""Abstract interpreter for LLVM IR.

Domain: per-cell memory with typed objects, linear expressions over atoms
(dom.py), disjunctive in the control cells (pointers, enum-like cells), joined
and widened at every loop head.  Calls are analysed context-sensitively
(inlined); external functions and callbacks are abstract models.
"""

import gc
import heapq
import os
import sys

from . import ir
from math import gcd

from .ir import AnalysisBroken, UNDEF
from .dom import (AtomTable, Facts, Infeasible, Lin, add, sub, scale, atom,
                  subst, mk)

sys.setrecursionlimit(20000)
gc.disable()

EMPTY = frozenset()


class Ptr:
    """Pointer into an object; obj None is the null pointer."""
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj = obj
        self.off = off

    def __eq__(self, o):
        return o.__class__ is Ptr and self.obj == o.obj and self.off == o.off

    def __hash__(self):
        return hash((self.obj, self.off))

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)


NULLP = Ptr(None, 0)


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return o.__class__ is Fn and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return '&%s' % self.name


class Bad:
    """A value that must not be used (uninitialised, stale, ...)."""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __eq__(self, o):
        return o.__class__ is Bad and o.why == self.why

    def __hash__(self):
        return hash(self.why)

    def __repr__(self):
        return 'Bad(%s)' % self.why


class Opaque:
    """A value about which nothing is known (floats, unknown pointers)."""
    __slots__ = ('deps', 'tag')

    def __init__(self, deps=EMPTY, tag=None):
        self.deps = deps
        self.tag = tag

    def __eq__(self, o):
        return o.__class__ is Opaque and o.tag == self.tag

    def __hash__(self):
        return hash(self.tag)

    def __repr__(self):
        return 'Opaque(%s)' % (self.tag,)


class Cond:
    """Truth value of a comparison."""
    __slots__ = ('pred', 'n', 'a', 'b', 'neg')

    def __init__(self, pred, n, a, b, neg=False):
        self.pred = pred
        self.n = n
        self.a = a
        self.b = b
        self.neg = neg

    def inv(self):
        return Cond(self.pred, self.n, self.a, self.b, not self.neg)

    def __eq__(self, o):
        return (o.__class__ is Cond and self.pred == o.pred and self.n == o.n
                and self.a == o.a and self.b == o.b and self.neg == o.neg)

    def __hash__(self):
        return hash((self.pred, self.n, self.a, self.b, self.neg))

    def __repr__(self):
        return '%s(%s %s %s)' % ('!' if self.neg else '', self.a, self.pred,
                                 self.b)


class Obj:
    __slots__ = ('id', 'size', 'cells', 'default', 'kind', 'owner', 'ro',
                 'deps', 'tags', 'site', 'pre')

    def __init__(self, id, size, default, kind, ro=False, site=None):
        self.id = id
        self.size = size
        self.cells = {}        # offset -> (nbytes, value)
        self.default = default  # 'uninit', 'zero', 'unknown'
        self.kind = kind        # 'stack', 'heap', 'global', 'ext', ...
        self.owner = None
        self.ro = ro
        self.deps = EMPTY
        self.tags = EMPTY
        self.site = site
        self.pre = 0            # bytes [0, pre) are initialised

    def clone(self):
        o = Obj.__new__(Obj)
        o.id = self.id
        o.size = self.size
        o.cells = dict(self.cells)
        o.default = self.default
        o.kind = self.kind
        o.owner = None
        o.ro = self.ro
        o.deps = self.deps
        o.tags = self.tags
        o.site = self.site
        o.pre = self.pre
        return o


class State:
    __slots__ = ('mem', 'facts', 'ghost', 'path', '_shared')

    def __init__(self, at):
        self.mem = {}
        self.facts = Facts(at)
        self.ghost = {}
        self.path = None
        self._shared = False

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = self.facts.copy()
        s.ghost = dict(self.ghost)
        s.path = self.path
        for o in s.mem.values():
            o.owner = None
        return s

    def wobj(self, oid):
        o = self.mem[oid]
        if o.owner is not self:
            o = o.clone()
            o.owner = self
            self.mem[oid] = o
        return o


class Alarm:
    __slots__ = ('kind', 'file', 'line', 'func', 'msg', 'stack')

    def __init__(self, kind, file, line, func, msg, stack):
        self.kind = kind
        self.file = file
        self.line = line
        self.func = func
        self.msg = msg
        self.stack = stack

    def key(self):
        return (self.kind, self.func, self.msg)


SIGNED = {'slt', 'sle', 'sgt', 'sge'}


class Budget(Exception):
    pass


class Interp:
    def __init__(self, module, models=None, repo='/repo'):
        self.m = module
        self.at = AtomTable()
        self.models = models or {}
        self.alarms = {}
        self.control = set()     # control cells: (obj id, offset)
        self.plain = set()       # cells that never are
        self.stack = []          # (function, instruction)
        self.nobj = 0
        self.repo = repo
        self.steps = 0
        self.max_steps = 60000000
        self.callsites = set()
        self.obligations = {}    # kind -> set of sites
        self.visited = set()     # functions analysed
        self.muls = set()
        self.check_nsw = True
        self.globals_ready = {}
        self.max_results = 24
        self.max_group = 6
        self.on_event = None
        self.last_gen = EMPTY
        self.why = None
        self.regs = []
        self.curenv = {}
        self.trace = bool(os.environ.get('SA_TRACE'))
        self.callcount = 0
        self.pad = 0
        self.cut_on = False
        self.in_cut = False
        self.watching = False    # a byte is watched (see watch())
        self.status = True      # tell states apart by status variables
        self.ints = {}          # object -> the largest of its integers
        self.rich = False        # relations of three values (sa_rich())
        self.cuts = set()
        self.cut_memo = {}
        self.has_mono = False

    # ------------------------------------------------------------ reports
    def where(self, ins=None):
        """The innermost position within a function of /repo."""
        pos = None
        if ins is not None and ins.fn is not None:
            pos = (ins.fn, ins.line)
            if ins.fn.file and ins.fn.file.startswith(self.repo):
                return pos
        for f, i in reversed(self.stack):
            if f.file and f.file.startswith(self.repo):
                return (f, i.line)
        return pos or (None, 0)

    def alarm(self, kind, state, ins, msg):
        f, line = self.where(ins)
        name = f.name if f else '?'
        file = os.path.relpath(f.file, self.repo) if f and f.file else '?'
        a = Alarm(kind, file, line, name, msg,
                  [(g.name, i.line) for g, i in self.stack])
        k = (kind, file, line, msg)
        if k not in self.alarms:
            self.alarms[k] = a
            if os.environ.get('SA_STOP') and os.environ['SA_STOP'] in msg:
                p = state.path
                while p:
                    print('   at', p[0])
                    p = p[1]
                for o in state.mem.values():
                    print('  obj', o.id, o.size, o.kind, o.default)
                    for c in sorted(o.cells):
                        print('    ', c, o.cells[c], self.show(state, o.cells[c][1]))
                print('  cons', state.facts.cons)
                print(msg)
                raise SystemExit(3)

    def show(self, state, v):
        if v.__class__ is Lin:
            return state.facts.bounds(v)
        return v

    def oblige(self, kind, ins):
        f, line = self.where(ins)
        self.obligations.setdefault(kind, set()).add(
            (f.name if f else '?', line, id(ins)))

    # ------------------------------------------------------------ objects
    def new_obj(self, state, size, default, kind, ro=False, name=None,
                site=None):
        if name is None:
            self.nobj += 1
            name = 'o%d' % self.nobj
        o = Obj(name, size, default, kind, ro, site)
        o.owner = state
        state.mem[name] = o
        return name

    def global_ptr(self, state, name):
        if name in self.m.functions or name in self.m.declared:
            return Fn(name)
        g = self.m.globals.get(name)
        oid = '@' + name
        if oid not in state.mem:
            if g is None:
                self.new_obj(state, 1 << 40, 'unknown', 'global', name=oid)
            else:
                ty, init, const = g
                size = ir.layout(ty).size or (1 << 30)
                d = 'unknown' if init is None else 'zero'
                self.new_obj(state, size, d, 'global', ro=const, name=oid)
                if init is not None:
                    self.init_global(state, oid, 0, ty, init)
        return Ptr(oid, 0)

    def init_global(self, state, oid, off, ty, init):
        o = state.wobj(oid)
        if init == ('zero',) or init is UNDEF:
            return
        if isinstance(init, tuple) and init[0] == 'str':
            bs = self.unescape(init[1])
            if ty.n > 4096:
                o.default = 'unknown'
                return
            for i, b in enumerate(bs):
                o.cells[off + i] = (1, b)
            return
        if isinstance(init, tuple) and init[0] == 'agg':
            if ty.k == 'arr' and ty.n > 600:
                o.default = 'unknown'
                return
            if ty.k == 'arr':
                es = ir.layout(ty.elem).size
                for i, (et, v) in enumerate(init[1]):
                    self.init_global(state, oid, off + i * es, et, v)
            else:
                ir.layout(ty)
                for i, (et, v) in enumerate(init[1]):
                    self.init_global(state, oid, off + ty.offs[i], et, v)
            return
        v = self.const(state, init)
        o = state.wobj(oid)
        o.cells[off] = (ir.layout(ty).size, v)

    @staticmethod
    def unescape(s):
        r = []
        i = 0
        while i < len(s):
            if s[i] == '\\':
                r.append(int(s[i + 1:i + 3], 16))
                i += 3
            else:
                r.append(ord(s[i]))
                i += 1
        return r

    def cstring(self, state, p):
        """Constant C string at pointer p, or None."""
        if p.__class__ is not Ptr or p.obj is None:
            return None
        o = state.mem.get(p.obj)
        if o is None or p.off.__class__ is not int:
            return None
        r = ''
        i = p.off
        while True:
            c = o.cells.get(i)
            if c is None or c[0] != 1 or c[1].__class__ is not int:
                return None
            if c[1] == 0:
                return r
            r += chr(c[1] & 0xff)
            i += 1

    # ------------------------------------------------------------ values
    def const(self, state, x):
        if x.__class__ is int:
            return x
        if x is None:
            return NULLP
        if x is UNDEF:
            return Bad('undefined')
        k = x[0]
        if k == 'g':
            return self.global_ptr(state, x[1])
        if k == 'cgep':
            p = self.const(state, x[1])
            return Ptr(p.obj, add(p.off, x[2])) if p.__class__ is Ptr else p
        if k == 'cast':
            return self.const(state, x[2])
        if k == 'float':
            return Opaque(tag=x)
        if k in ('zero',):
            return 0
        return Opaque(tag=str(x))

    def fresh(self, name, n, deps=EMPTY, signed=None):
        if signed is None:
            signed = n == 32
        if n == 1:
            lo, hi = 0, 1
        elif signed:
            lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
        else:
            lo, hi = 0, (1 << n) - 1
        return atom(self.at.new(name, lo, hi, deps))

    def fresh_range(self, name, lo, hi, deps=EMPTY):
        return atom(self.at.new(name, lo, hi, deps))

    def deps(self, v):
        if v.__class__ is Lin:
            r = EMPTY
            for a, _ in v.t:
                d = self.at.deps[a]
                if d:
                    r = r | d
            return r
        if v.__class__ is Cond:
            return self.deps(v.a) | self.deps(v.b)
        if v.__class__ is Opaque:
            return v.deps
        if v.__class__ is Ptr and v.off.__class__ is Lin:
            return self.deps(v.off)
        return EMPTY

    def canon(self, state, v, n, signed):
        """List of (state, v') with v' == v mod 2^n in the canonical range.
        v must be int or Lin."""
        m = 1 << n
        if signed:
            lo, hi = -(m >> 1), (m >> 1) - 1
        else:
            lo, hi = 0, m - 1
        if v.__class__ is int:
            v &= m - 1
            if signed and v > hi:
                v -= m
            return [(state, v)]
        f = state.facts
        l, h = f.bounds(v)
        if lo <= l and h <= hi:
            return [(state, v)]
        okl = lo <= l or f.le0(sub(lo, v))
        okh = h <= hi or f.le0(sub(v, hi))
        if okl and okh:
            return [(state, v)]
        if l < lo - m or h > hi + m:
            # Multi-wrap: forget.
            return [(state, self.term('wrap', (v, n, signed), n,
                                      signed=signed))]
        out = []
        # Split into the three possible ranges.
        parts = []
        if not okl:
            parts.append(-1)
        parts.append(0)
        if not okh:
            parts.append(1)
        for k in parts:
            s = state.copy()
            try:
                if k == -1:
                    s.facts.add_le0(sub(v, lo - 1))
                    out.append((s, add(v, m)))
                elif k == 0:
                    if not okl:
                        s.facts.add_le0(sub(lo, v))
                    if not okh:
                        s.facts.add_le0(sub(v, hi))
                    out.append((s, v))
                else:
                    s.facts.add_le0(sub(hi + 1, v))
                    out.append((s, sub(v, m)))
            except Infeasible:
                pass
        return out

    def term(self, op, args, n, lo=None, hi=None, signed=None):
        if lo is None:
            if signed is None:
                signed = n == 32
            if signed:
                lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
            else:
                lo, hi = 0, (1 << n) - 1
        d = EMPTY
        for x in args:
            if x.__class__ in (Lin, Cond, Opaque):
                d = d | self.deps(x)
        return atom(self.at.term((op,) + tuple(args), lo, hi, d))

    def as_int(self, state, v, n, ins):
        """Make v an int or Lin (no fork)."""
        c = v.__class__
        if c is int or c is Lin:
            return v
        if c is Cond:
            r = self.decide(state, v)
            if r is not None:
                return int(r)
            if v.pred == 'ne' and not v.neg and v.b.__class__ is int \
                    and v.b == 0 and v.a.__class__ is Lin:
                lo, hi = state.facts.bounds(v.a)
                if lo >= 0 and hi <= 1:
                    return v.a
            return self.fresh_range('bool', 0, 1, self.deps(v))
        if c is Ptr:
            if v.obj is None:
                return v.off
            return add(self.term('addr', (v.obj,), 64, 4096, 1 << 47), v.off)
        if c is Bad:
            self.alarm('uninit', state, ins, 'use of %s value' % v.why)
            return self.fresh('bad', n)
        if c is Opaque:
            return self.fresh('opaque', n, v.deps)
        if c is Fn:
            return self.term('fnaddr', (v.name,), 64)
        return self.fresh('any', n)

    def bterm(self, state, op, args, n, lo, hi):
        """Hash-consed term whose bounds are facts of this state only (the
        atom itself is shared by all states)."""
        d = EMPTY
        for x in args:
            if x.__class__ in (Lin, Cond, Opaque):
                d = d | self.deps(x)
        a = self.at.term((op,) + tuple(args), -(1 << n), 1 << n, d)
        l, h = state.facts.ab(a)
        if lo > l or hi < h:
            state.facts.b[a] = (max(lo, l), min(hi, h))
        return atom(a)

    # ------------------------------------------------------------ conditions
    def decide(self, state, c):
        """True, False or None."""
        if c.__class__ is int:
            return c != 0
        if c.__class__ is Lin:
            f = state.facts
            if f.const(c) is not None:
                return f.const(c) != 0
            if f.known_ne0(c):
                return True
            return None
        if c.__class__ is not Cond:
            return None
        r = self.decide0(state, c)
        if r is None:
            return None
        return r != c.neg

    def decide0(self, state, c):
        a, b, n = c.a, c.b, c.n
        if n == 0:      # pointers
            return self.ptr_cmp(state, c.pred, a, b)
        f = state.facts
        if a.__class__ is int and b.__class__ is int:
            m = (1 << n) - 1
            ua, ub = a & m, b & m
            if c.pred in SIGNED:
                h = 1 << (n - 1)
                ua = ua - m - 1 if ua >= h else ua
                ub = ub - m - 1 if ub >= h else ub
            p = c.pred
            if p == 'eq':
                return ua == ub
            if p == 'ne':
                return ua != ub
            if p[1:] == 'lt':
                return ua < ub
            if p[1:] == 'le':
                return ua <= ub
            if p[1:] == 'gt':
                return ua > ub
            return ua >= ub
        d = sub(a, b)
        if c.pred in ('eq', 'ne'):
            if d.__class__ is int:
                r = (d & ((1 << n) - 1)) == 0
                return r if c.pred == 'eq' else not r
            lo, hi = f.bounds(d)
            if lo > -(1 << n) and hi < (1 << n):
                if f.known_ne0(d):
                    return c.pred == 'ne'
                if f.eq0(d):
                    return c.pred == 'eq'
            return None
        return None

    def ptr_cmp(self, state, pred, a, b):
        if pred not in ('eq', 'ne'):
            return None
        r = None
        if a == b:
            r = True
        elif a.__class__ is Ptr and b.__class__ is Ptr:
            if a.obj != b.obj:
                if a.obj is None or b.obj is None:
                    r = False
                else:
                    r = False
            else:
                d = sub(a.off, b.off)
                if state.facts.eq0(d):
                    r = True
                elif state.facts.known_ne0(d):
                    r = False
        elif a.__class__ is Fn or b.__class__ is Fn:
            if Opaque not in (a.__class__, b.__class__):
                r = False
        if r is None:
            return None
        return r if pred == 'eq' else not r

    def assume(self, state, c, truth):
        """States in which condition c has the given truth value."""
        if c.__class__ is int:
            return [state] if (c != 0) == truth else []
        if c.__class__ is Lin:
            c = Cond('ne', 64, c, 0)
        if c.__class__ is Opaque:
            return [state]
        if c.__class__ is not Cond:
            return [state]
        want = truth != c.neg
        r = self.decide0(state, c)
        if r is not None:
            return [state] if r == want else []
        a, b, n, p = c.a, c.b, c.n, c.pred
        if n == 0:
            return self.assume_ptr(state, p, a, b, want)
        if not want:
            p = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt',
                 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult',
                 'ugt': 'ule', 'ule': 'ugt'}[p]
        out = []
        if p in ('eq', 'ne'):
            d = sub(a, b)
            lo, hi = state.facts.bounds(d)
            if lo > -(1 << n) and hi < (1 << n):
                pairs = [(state, a, b)]
            else:
                pairs = self.canon2(state, a, b, n, False)
        else:
            pairs = self.canon2(state, a, b, n, p in SIGNED)
        for s, x, y in pairs:
            if s is state:
                s = state.copy()
            try:
                if p == 'eq':
                    s.facts.add_eq0(sub(x, y))
                elif p == 'ne':
                    s.facts.add_ne0(sub(x, y))
                elif p[1:] == 'lt':
                    s.facts.add_le0(add(sub(x, y), 1))
                elif p[1:] == 'le':
                    s.facts.add_le0(sub(x, y))
                elif p[1:] == 'gt':
                    s.facts.add_le0(add(sub(y, x), 1))
                else:
                    s.facts.add_le0(sub(y, x))
                out.append(s)
            except Infeasible:
                pass
        return out

    def canon2(self, state, a, b, n, signed):
        out = []
        for s, x in self.canon(state, a, n, signed):
            for s2, y in self.canon(s, b, n, signed):
                out.append((s2, x, y))
        return out

    def assume_ptr(self, state, p, a, b, want):
        eq = (p == 'eq') == want
        if p not in ('eq', 'ne'):
            return [state]
        if a.__class__ is Ptr and b.__class__ is Ptr and a.obj == b.obj:
            s = state.copy()
            try:
                if eq:
                    s.facts.add_eq0(sub(a.off, b.off))
                else:
                    s.facts.add_ne0(sub(a.off, b.off))
                return [s]
            except Infeasible:
                return []
        return [state]

    # ------------------------------------------------------------ memory
    def check_access(self, state, p, n, ins, write, what=None):
        """Obligation: [p, p+n) lies within a live object. True if so."""
        self.oblige('access', ins)
        verb = 'write' if write else 'read'
        if p.__class__ is Bad:
            self.alarm('memory', state, ins, '%s through %s pointer' % (
                verb, p.why))
            return False
        if p.__class__ is Opaque:
            self.alarm('memory', state, ins, '%s through unknown pointer' %
                       verb)
            return False
        if p.__class__ is not Ptr:
            self.alarm('memory', state, ins, '%s through non-pointer' % verb)
            return False
        if p.obj is None:
            self.alarm('memory', state, ins, 'null pointer %s' % verb)
            return False
        o = state.mem.get(p.obj)
        if o is None:
            self.alarm('memory', state, ins,
                       '%s of memory that is no longer valid' % verb)
            return False
        if 'dead' in o.tags:
            self.alarm('memory', state, ins,
                       '%s of memory that was released' % verb)
            return False
        if write and o.ro:
            self.alarm('memory', state, ins, 'write to read-only memory')
        off = p.off
        if off.__class__ is int and n.__class__ is int \
                and o.size.__class__ is int:
            if off < 0 or off + n > o.size:
                self.alarm('memory', state, ins,
                           'out-of-bounds %s' % verb)
                return False
            return True
        f = state.facts
        if not f.le0(scale(off, -1)):
            self.alarm('memory', state, ins,
                       '%s before the start of an object' % verb)
            try:
                f.add_le0(scale(off, -1))
            except Infeasible:
                return False
        if not f.le0(sub(add(off, n), o.size)):
            self.alarm('memory', state, ins, '%s past the end of an object' %
                       verb)
            try:
                f.add_le0(sub(add(off, n), o.size))
            except Infeasible:
                return False
        return True

    def load(self, state, p, ty, ins):
        """Value loaded (one value; weak for symbolic offsets)."""
        n = ty.size
        if not self.check_access(state, p, n, ins, False):
            return self.unknown(ty, 'badload')
        o = state.mem[p.obj]
        off = p.off
        if off.__class__ is Lin:
            c = state.facts.const(off)
            if c is not None:
                off = c
        if self.watching:
            w = self.watched(state, p.obj)
            if w is not None and n == 1 and ty.k == 'int' \
                    and w[1] is not None \
                    and state.facts.eq0(sub(off, w[0])):
                return w[1]
        if off.__class__ is int:
            c = o.cells.get(off)
            if c is not None:
                if c[0] == n:
                    v = c[1]
                    if v.__class__ is Bad and v.why != 'stale':
                        self.alarm('uninit', state, ins,
                                   'use of %s value%s' % (
                                       v.why, self.cellname(o, off)))
                        return self.unknown(ty, 'bad')
                    if self.on_event:
                        self.on_event('load', state, o, off, n, v, ins)
                    if ty.k == 'ptr' and v.__class__ in (int,):
                        return Ptr(None, v)
                    if ty.k == 'int' and v.__class__ is Ptr:
                        return self.as_int(state, v, ty.n, ins)
                    return v
                if c[0] > n and c[1].__class__ in (Lin, int):
                    return self.unknown(ty, 'part', self.deps(c[1]))
                if c[1] == 0 and c[1].__class__ is int:
                    # Adjacent zero cells may be combined.
                    k = off
                    while k < off + n:
                        cc = o.cells.get(k)
                        if cc is None or cc[1] != 0:
                            break
                        k += cc[0]
                    if k == off + n:
                        return NULLP if ty.k == 'ptr' else 0
                return self.unknown(ty, 'part', self.overlap_deps(o, off, n))
            # Missing cell: overlapping larger cells?
            if o.cells and self.overlaps(o, off, n):
                return self.unknown(ty, 'part', self.overlap_deps(o, off, n))
            if o.default == 'zero':
                return NULLP if ty.k == 'ptr' else 0
            if o.default == 'uninit' and not self.in_prefix(state, o, off, n):
                self.alarm('uninit', state, ins,
                           'use of uninitialised value%s' %
                           self.cellname(o, off))
                return self.unknown(ty, 'uninit')
            v = self.unknown(ty, 'm:%s:%d' % (o.id, off), o.deps)
            if o.kind == 'input':
                v = self.input_atom(state, o, off)
            elif ty.k == 'ptr':
                v = Opaque(o.deps, tag=('unk', o.id, off))
            o = state.wobj(p.obj)
            o.cells[off] = (n, v)
            return v
        # Symbolic offset.
        d = o.deps | self.deps(off)
        hi = self.ints.get(p.obj)
        if hi is not None and n == 4 and ty.k == 'int':
            # The same element is the same atom.
            v = atom(self.at.term(('in', o.id, off), 0, (1 << 31) - 1,
                                  EMPTY))
            state.facts.add_le0(sub(v, hi))
            return v
        if o.kind == 'input':
            return self.input_atom(state, o, off)
        if o.default == 'uninit' and not self.covered(state, o, off, n):
            self.alarm('uninit', state, ins,
                       'use of uninitialised array element%s' %
                       self.cellname(o, '?'))
        lo, hi = state.facts.bounds(off)
        if len(o.cells) <= 64:
            for k, (w, v) in o.cells.items():
                if k + w > lo and k < hi + n:
                    d = d | self.deps(v)
        # Table lookup in a small constant table: interval of its entries.
        if o.ro and o.kind == 'global' and ty.k == 'int':
            vs = [v for k, (w, v) in o.cells.items()
                  if w == n and lo <= k <= hi]
            if vs and all(v.__class__ is int for v in vs):
                if o.default == 'zero':
                    vs = vs + [0]
                return self.fresh_range('tab', min(vs), max(vs), d)
        return self.unknown(ty, 'arr', d)

    def in_prefix(self, state, o, off, n):
        if o.pre.__class__ is int and o.pre == 0:
            return False
        return state.facts.le0(sub(add(off, n), o.pre))

    def covered(self, state, o, off, n):
        """All bytes of [off, off+n) are initialised in an object whose
        default is 'uninit'."""
        if self.in_prefix(state, o, off, n):
            return True
        # Every cell of the possible range exists?
        lo, _ = state.facts.bounds(off)
        hi = state.facts.bounds(add(off, n))[1]
        if not o.cells or hi - lo > 4096:
            return False
        k = lo
        if o.pre.__class__ is int and k < o.pre:
            k = o.pre
        while k < hi:
            c = o.cells.get(k)
            if c is None:
                return False
            if c[1].__class__ is Bad and c[1].why != 'stale':
                return False
            k += c[0]
        return True

    @staticmethod
    def eff_prefix(o):
        """Initialised prefix, including adjacent cells."""
        k = o.pre
        if k.__class__ is not int:
            return k
        while True:
            c = o.cells.get(k)
            if c is None or c[1].__class__ is Bad:
                return k
            k += c[0]

    def grow_prefix(self, state, o, off, n):
        if o.default != 'uninit':
            return
        f = state.facts
        if f.le0(sub(off, o.pre)):
            e = add(off, n)
            # If neither is known to be the longer one, the new one.
            if f.le0(sub(o.pre, e)) or not f.le0(sub(e, o.pre)):
                o.pre = e
                if f.le0(sub(o.size, e)):
                    o.default = 'unknown'
                    o.pre = 0

    def check_init(self, state, p, n, ins):
        """Obligation: the bytes [p, p+n) have been written."""
        self.oblige('initialised', ins)
        if p.__class__ is not Ptr or p.obj is None or p.obj not in state.mem:
            return
        o = state.mem[p.obj]
        lo, hi = state.facts.bounds(p.off)
        end = state.facts.bounds(add(p.off, n))[1]
        for k, (w, v) in o.cells.items():
            if v.__class__ is Bad and v.why != 'stale' and k < end \
                    and k + w > lo:
                self.alarm('uninit', state, ins, 'use of %s data%s' % (
                    v.why, self.cellname(o, k)))
                return
        if o.default != 'uninit' or self.covered(state, o, p.off, n):
            return
        self.alarm('uninit', state, ins, 'use of uninitialised data%s' %
                   self.cellname(o, lo))

    def input_atom(self, state, o, off):
        """A byte of an input object: the same offset is the same atom."""
        return atom(self.at.term(('in', o.id, off), 0, 255,
                                 frozenset([o.site or 'in'])))

    def cellname(self, o, off):
        if o.site:
            return ' (%s+%s)' % (o.site, off)
        return ''

    def overlaps(self, o, off, n):
        for k, (w, v) in o.cells.items():
            if k < off + n and off < k + w:
                return True
        return False

    def overlap_deps(self, o, off, n):
        d = EMPTY
        for k, (w, v) in o.cells.items():
            if k < off + n and off < k + w:
                d = d | self.deps(v)
        return d

    def unknown(self, ty, name, deps=EMPTY):
        if ty.k == 'int':
            return self.fresh(name, ty.n, deps)
        return Opaque(deps, tag=(name, self.at.new(name, 0, 0)))

    def kill(self, o, off, n):
        """Remove cells overlapping [off, off+n) of writable obj o."""
        if n == 0:
            return
        if o.cells.get(off, (0,))[0] == n:
            del o.cells[off]
            return
        dead = [k for k, (w, v) in o.cells.items()
                if k < off + n and off < k + w]
        for k in dead:
            w, v = o.cells.pop(k)
            if o.default == 'uninit':
                # Keep the parts not overwritten readable.
                if k < off:
                    o.cells[k] = (off - k, self.fresh('cut', 8 * (off - k)))
                if k + w > off + n:
                    e = k + w - (off + n)
                    o.cells[off + n] = (e, self.fresh('cut', 8 * e))

    def store(self, state, p, ty, v, ins):
        n = ty.size
        if not self.check_access(state, p, n, ins, True):
            return
        off = p.off
        if off.__class__ is Lin:
            c = state.facts.const(off)
            if c is not None:
                off = c
        o = state.wobj(p.obj)
        if self.watching:
            self.watch_write(state, o, off, n, v)
        if self.on_event:
            self.on_event('store', state, o, off, n, v, ins)
        if off.__class__ is int:
            if off not in o.cells or o.cells[off][0] != n:
                if o.cells:
                    self.kill(o, off, n)
            o.cells[off] = (n, v)
            return
        # Weak update of every cell that may be hit.
        self.weak_write(state, o, off, n, self.deps(v))

    def weak_write(self, state, o, off, n, deps):
        lo, _ = state.facts.bounds(off)
        hi = state.facts.bounds(add(off, n))[1]
        o.deps = o.deps | deps
        if self.region_of(o, lo, hi):
            return
        for k in list(o.cells):
            w, v = o.cells[k]
            if k + w > lo and k < hi:
                o.cells[k] = (w, self.blur(v, w, deps))
        if o.default == 'zero':
            o.default = 'unknown'
        elif o.default == 'uninit':
            self.grow_prefix(state, o, off, n)

    def region_of(self, o, lo, hi):
        return False

    def blur(self, v, w, deps):
        if v.__class__ in (Ptr, Fn):
            return Opaque(tag=('blur', self.at.new('b', 0, 0)))
        return self.fresh('arr', 8 * w, self.deps(v) | deps)

    def havoc(self, state, p, n, ins, deps=EMPTY, write=True):
        """An external agent fills [p, p+n) with unknown bytes."""
        if n.__class__ is int and n == 0:
            return
        if not self.check_access(state, p, n, ins, write):
            return
        o = state.wobj(p.obj)
        self.fill_region(state, o, p.off, n, deps)

    # A watched byte: one byte of an object, at any (symbolic) offset, whose
    # value is kept track of.
    def watch(self, state, p, v):
        if p.__class__ is not Ptr or p.obj not in state.mem:
            return
        self.watching = True
        k = 'watch:' + p.obj
        o = Obj(k, 16, 'unknown', 'watch')
        o.owner = state
        off = p.off
        if off.__class__ is Lin and len(off.t) > 1:
            # A name of its own makes relations with it simpler.
            lo, hi = state.facts.bounds(off)
            lo, hi = state.facts.tight(off, lo, hi)
            if lo < 0 and state.facts.le0(scale(off, -1)):
                lo = 0
            off = atom(self.at.new('watched', lo, hi, self.deps(off)))
            state.facts.add_eq0(sub(off, p.off))
        o.cells = {0: (8, off), 8: (1, v)}
        state.mem[k] = o
        self.control.add((k, 8))

    def watched(self, state, oid):
        """(offset, value or None) of the byte watched in the object."""
        o = state.mem.get('watch:' + oid)
        if o is None:
            return None
        off, v = o.cells[0][1], o.cells[8][1]
        return off, v if v.__class__ in (int, Lin) else None

    def watch_set(self, state, oid, v):
        o = state.wobj('watch:' + oid)
        o.cells[8] = (1, v if v.__class__ in (int, Lin)
                      else Opaque(tag='not known'))

    def watch_write(self, state, o, off, n, v=None):
        """[off, off + n) is written: with v when it is one byte."""
        w = self.watched(state, o.id)
        if w is None:
            return
        f = state.facts
        if f.le0(sub(add(off, n), w[0])) or f.le0(sub(add(w[0], 1), off)):
            return
        if n.__class__ is int and n == 1 and f.eq0(sub(off, w[0])):
            self.watch_set(state, o.id, v)
        else:
            self.watch_set(state, o.id, None)

    def watch_split(self, state, p, n):
        """The states in which it is known whether the byte watched is in
        [p, p + n); None when it is known already."""
        if p.__class__ is not Ptr or p.obj is None:
            return None
        w = self.watched(state, p.obj)
        if w is None or w[1] is None:
            return None
        f = state.facts
        end = add(p.off, n)
        if f.le0(sub(end, w[0])) or f.le0(sub(add(w[0], 1), p.off)) or \
                f.le0(sub(p.off, w[0])) and f.le0(sub(add(w[0], 1), end)):
            return None
        out = []
        for cons in ((sub(end, w[0]),), (sub(add(w[0], 1), p.off),),
                     (sub(p.off, w[0]), sub(add(w[0], 1), end))):
            s = state.copy()
            try:
                for c in cons:
                    s.facts.add_le0(c)
            except Infeasible:
                continue
            out.append(s)
        return out

    def watch_copy(self, state, dst, src, n):
        """After n bytes have been copied (see watch_split)."""
        f = state.facts
        w = self.watched(state, src.obj)
        inside = (w is not None and w[1] is not None
                  and f.le0(sub(src.off, w[0]))
                  and f.le0(sub(add(w[0], 1), add(src.off, n))))
        d = self.watched(state, dst.obj)
        if inside:
            off = add(dst.off, sub(w[0], src.off))
            if d is None or not f.eq0(sub(d[0], off)):
                self.watch(state, Ptr(dst.obj, off), w[1])
            else:
                self.watch_set(state, dst.obj, w[1])
        elif d is not None and not (
                f.le0(sub(add(dst.off, n), d[0]))
                or f.le0(sub(add(d[0], 1), dst.off))):
            self.watch_set(state, dst.obj, None)

    def fill_region(self, state, o, off, n, deps):
        if self.watching:
            self.watch_write(state, o, off, n)
        c = state.facts.const(off)
        if c is not None:
            off = c
        c = state.facts.const(n)
        if c is not None:
            n = c
        if off.__class__ is int and n.__class__ is int and n <= 8:
            self.kill(o, off, n)
            if n:
                o.cells[off] = (n, self.fresh('fill', 8 * n, deps))
            return
        lo, _ = state.facts.bounds(off)
        hi = state.facts.bounds(add(off, n))[1]
        o.deps = o.deps | deps
        for k in list(o.cells):
            w, v = o.cells[k]
            if k + w > lo and k < hi:
                o.cells[k] = (w, self.blur(v, w, deps))
        if o.default == 'zero':
            o.default = 'unknown'
        elif o.default == 'uninit':
            self.grow_prefix(state, o, off, n)

    def region_deps(self, state, p, n):
        if p.__class__ is not Ptr or p.obj is None:
            return EMPTY
        o = state.mem.get(p.obj)
        if o is None:
            return EMPTY
        d = o.deps
        lo, _ = state.facts.bounds(p.off)
        hi = state.facts.bounds(add(p.off, n))[1]
        for k, (w, v) in o.cells.items():
            if k + w > lo and k < hi:
                d = d | self.deps(v)
        if o.kind == 'input':
            d = d | frozenset([o.site or 'in'])
        return d

    def memcpy(self, state, dst, src, n, ins):
        c = state.facts.const(n)
        if c is not None:
            n = c
        if n.__class__ is int and n == 0:
            return
        if n.__class__ is Lin and not state.facts.known_ne0(n):
            # A zero-length copy touches nothing: bounds are still required
            # as soon as n can be positive.
            pass
        ok = self.check_access(state, src, n, ins, False)
        ok = self.check_access(state, dst, n, ins, True) and ok
        if not ok:
            return
        if self.watching:
            wd = self.watched(state, dst.obj)
            self.memcpy0(state, dst, src, n)
            if wd is not None:
                # What is watched has not been written yet.
                state.mem['watch:' + dst.obj].owner = None
                o = state.wobj('watch:' + dst.obj)
                o.cells[8] = (1, wd[1] if wd[1] is not None
                              else Opaque(tag='not known'))
            self.watch_copy(state, dst, src, n)
            return
        self.memcpy0(state, dst, src, n)

    def memcpy0(self, state, dst, src, n):
        so = state.mem[src.obj]
        do = state.wobj(dst.obj)
        so = state.mem[src.obj]
        soff = state.facts.const(src.off)
        doff = state.facts.const(dst.off)
        if (n.__class__ is int and soff is not None and doff is not None
                and so.kind != 'input'):
            cells = [(k - soff, w, v) for k, (w, v) in so.cells.items()
                     if k >= soff and k + w <= soff + n]
            whole = doff == 0 and n == do.size
            self.kill(do, doff, n)
            for k in [k for k in do.cells if doff <= k < doff + n]:
                del do.cells[k]
            if so.default in ('zero', 'unknown') and whole:
                do.default = so.default
            elif whole:
                do.default = so.default
            elif so.default != do.default and so.default == 'unknown':
                if n <= 8 and not cells:
                    do.cells[doff] = (n, self.fresh('cpy', 8 * n, so.deps))
                else:
                    self.fill_region(state, do, doff, n, so.deps)
            elif so.default == 'zero' and do.default != 'zero' and not cells:
                do.cells[doff] = (n, 0)
            for k, w, v in cells:
                do.cells[doff + k] = (w, v)
            do.deps = do.deps | so.deps
            return
        d = self.region_deps(state, src, n)
        self.fill_region(state, do, dst.off, n, d)

    def memcpys(self, state, dst, src, n, ins):
        """The states after memcpy()."""
        out = []
        for s in (self.watch_split(state, src, n)
                  if self.watching else None) or [state]:
            for s in (self.watch_split(s, dst, n)
                      if self.watching else None) or [s]:
                self.memcpy(s, dst, src, n, ins)
                out.append(s)
        return out

    def memsets(self, state, dst, val, n, ins):
        """The states after memset()."""
        out = []
        for s in (self.watch_split(state, dst, n)
                  if self.watching else None) or [state]:
            self.memset(s, dst, val, n, ins)
            out.append(s)
        return out

    def memset(self, state, dst, val, n, ins):
        w = self.watched(state, dst.obj) \
            if self.watching and dst.__class__ is Ptr else None
        self.memset0(state, dst, val, n, ins)
        if w is not None:
            f = state.facts
            if f.le0(sub(dst.off, w[0])) and \
                    f.le0(sub(add(w[0], 1), add(dst.off, n))):
                lo, hi = state.facts.bounds(val) \
                    if val.__class__ in (int, Lin) else (-1, 256)
                self.watch_set(state, dst.obj,
                               val if 0 <= lo and hi <= 255 else None)
            elif not (f.le0(sub(add(dst.off, n), w[0]))
                      or f.le0(sub(add(w[0], 1), dst.off))):
                self.watch_set(state, dst.obj, None)

    def memset0(self, state, dst, val, n, ins):
        c = state.facts.const(n)
        if c is not None:
            n = c
        if n.__class__ is int and n == 0:
            return
        if not self.check_access(state, dst, n, ins, True):
            return
        o = state.wobj(dst.obj)
        off = state.facts.const(dst.off)
        if off is not None and n.__class__ is int:
            if val.__class__ is int and (val & 0xff) == 0:
                if off == 0 and n == o.size:
                    o.cells = {}
                    o.default = 'zero'
                    o.deps = EMPTY
                    return
                self.kill(o, off, n)
                for k in [k for k in o.cells if off <= k < off + n]:
                    del o.cells[k]
                if n <= 4096 and o.default != 'zero':
                    k = off
                    # Fields are read with their natural size: cells of 1
                    # byte combine on load.
                    while k < off + n:
                        o.cells[k] = (1, 0)
                        k += 1
                return
        self.fill_region(state, o, dst.off, n, self.deps(val))

    # ------------------------------------------------------------ execution
    def run(self, name, args, state):
        fn = self.m.functions.get(name)
        if fn is None:
            raise AnalysisBroken('function %s not found' % name)
        return self.exec_function(fn, args, state)

    def exec_function(self, fn, args, state):
        if len(self.stack) > 200:
            raise AnalysisBroken('recursion in %s' % fn.name)
        ir.cfg(fn)
        ir.liveness(fn)
        self.visited.add(fn.name)
        self.callcount += 1
        env = {}
        for (ty, pn), v in zip(fn.params, args):
            env[pn] = v
        frame_objs = set()
        exits = self.region(fn, None, [(fn.order[0], None, env, state)],
                            frame_objs)
        results = [(st, ret) for nb, prev, env, st, ret in exits]
        # Drop the frame's objects.
        if frame_objs:
            for s, ret in results:
                for o in frame_objs:
                    s.mem.pop(o, None)
                    if self.watching:
                        s.mem.pop('watch:' + o, None)
        if len(results) > 1:
            results = self.merge_results(fn, results)
        for s, ret in results:
            if len(s.facts.cons) > 8 or len(s.facts.b) > 60:
                self.gc(s, (ret,))
        return results

    def region(self, fn, head, items, frame_objs):
        """Execute the blocks of the loop with the given head (None: the
        whole function) once from the given items.  Returns the edges that
        leave the region or go back to its head, and the returns, as
        [(block or None, prev, env, state, ret)]."""
        body = fn.loops[head] if head is not None else fn.blocks
        work = {}
        order = []
        out = []
        depth = len(self.stack)

        def push(b, prev, env, st):
            w = work.get(b)
            if w is None:
                w = work[b] = []
                heapq.heappush(order, (fn.rpo[b], b))
            w.append((prev, env, st))

        first = True
        for b, prev, env, st in items:
            push(b, prev, env, st)
        while order:
            _, b = heapq.heappop(order)
            group = work.pop(b)
            group = [(prev, self.enter(fn, b, prev, env, st), st)
                     for prev, env, st in group]
            if b in fn.loops and b != head:
                res = self.solve_loop(fn, b, group, frame_objs)
            else:
                if len(group) > self.max_group:
                    group = self.merge_group(group)
                res = []
                for prev, env, st in group:
                    for nb, _, nenv, nst, ret in self.exec_block(
                            fn, b, 0, prev, env, st, frame_objs, depth):
                        res.append((nb, b, nenv, nst, ret))
            for r in res:
                nb, prev, nenv, nst, ret = r
                if nb is None or nb == head or nb not in body:
                    out.append(r)
                else:
                    push(nb, prev, nenv, nst)
        return out

    def enter(self, fn, b, prev, env, state):
        """Registers on entry to block b: live ones, phi nodes evaluated."""
        if prev is None:
            return env
        live = fn.livein[b]
        new = {k: v for k, v in env.items()
               if (k[0] if k.__class__ is tuple else k) in live}
        blk = fn.blocks[b]
        if blk[0].op == 'phi':
            for ins in blk:
                if ins.op != 'phi':
                    break
                for v, l in ins.x:
                    if l == prev:
                        new[ins.dst] = self.val(state, env, v)
                        break
        return new

    def merge_group(self, group):
        """Join states of the same partition waiting at a block."""
        parts = {}
        for prev, env, st in group:
            st = self.rename_heap(st)
            k = (self.partition_key(st), tuple(sorted(
                (repr(r), repr(v)) for r, v in env.items())))
            parts.setdefault(k, []).append((prev, env, st))
        out = []
        for g in parts.values():
            prev, env, acc = g[0]
            self.curenv = env
            for _, _, st in g[1:]:
                if not self.subsumed(st, acc):
                    acc = self.join(acc, st)
            out.append((prev, env, acc))
        return out

    def trace_keys(self, heads):
        vals = {}
        for k in heads:
            for x in k[0][0]:
                if x[1] != 'tags':
                    vals.setdefault(x[:2], set()).add(x[2])
        for c, vs in vals.items():
            if len(vs) > 1:
                print(' ' * len(self.stack), '  by', c, sorted(map(str, vs)))

    def is_cut(self, fn, h):
        """The outermost loop in the sources under analysis that makes
        calls: its invariant is given by the harness."""
        if not self.cut_on or self.in_cut:
            return False
        if not (fn.file and fn.file.startswith(self.repo)):
            return False
        for b in fn.loops[h]:
            for ins in fn.blocks[b]:
                if ins.op == 'call' and not (
                        ins.a.__class__ is tuple and ins.a[0] == 'g'
                        and ins.a[1].startswith('llvm.')):
                    return True
        return False

    def run_harness(self, name, fn, h, state):
        self.stack.append((fn, fn.blocks[h][0]))
        regs = set()
        for v in self.curenv.values():
            self.value_atoms(v, regs)
        self.regs.append(regs)
        try:
            return [s for s, _ in self.run(name, [], state)]
        finally:
            self.stack.pop()
            self.regs.pop()

    def solve_cut(self, fn, h, group, frame_objs):
        self.in_cut = True
        self.cuts.add((fn.name, h))
        try:
            return self.solve_cut0(fn, h, group, frame_objs)
        finally:
            self.in_cut = False

    def cut_key(self, st, cells):
        """Values of the control cells described by the invariant (None:
        not a constant)."""
        r = {}
        for oid, off in self.control:
            if (oid, off) in cells:
                o = st.mem.get(oid)
                c = o.cells.get(off) if o is not None else None
                if c is None:
                    if o is not None and o.default == 'zero' \
                            and not self.overlaps(o, off, 1):
                        r[oid, off] = 0
                    continue
                v = c[1]
                if v.__class__ is Lin:
                    v = st.facts.const(v)
                elif v.__class__ not in (int, Ptr, Fn):
                    v = None
                r[oid, off] = v
        return r

    @staticmethod
    def compatible(k1, k2):
        for c, v in k1.items():
            w = k2.get(c)
            if v is not None and w is not None and v != w:
                return False
        return True

    def solve_cut0(self, fn, h, group, frame_objs):
        # Entry: the invariant holds; then any state in which it holds.
        if len(group) > 1:
            group = self.merge_group(group)
        out = []
        for prev, env, st in group:
            out.extend(self.solve_cut1(fn, h, prev, env, st, frame_objs))
        return out

    def solve_cut1(self, fn, h, prev, env, st, frame_objs):
        self.curenv = env
        if not self.run_harness('sa_inv_check', fn, h, st.copy()):
            return []
        st = self.rename_heap(st)
        e0 = tuple(sorted((repr(k), repr(v)) for k, v in env.items()))
        site = (fn.name, h, e0, tuple((f.name, id(i))
                                      for f, i in self.stack))
        memo = self.cut_memo.get(site)
        if memo is None:
            cells = set()
            H0s = []
            for H in self.run_harness('sa_inv_havoc', fn, h, st.copy()):
                for oid, o in H.mem.items():
                    b = st.mem.get(oid)
                    if b is o:
                        continue
                    for off, c in o.cells.items():
                        if b is None or b.cells.get(off) != c:
                            cells.add((oid, off))
                    if b is not None and o.default == 'uninit' \
                            and o.pre != b.pre:
                        cells.add((oid, 'pre'))
                H = H.copy()
                self.gc(H, env.values())
                H0s.append(H)
            # heads: [H0, current, count, gen]
            memo = {'cells': cells, 'H': H0s, 'heads': [], 'exits': {},
                    'seen': set()}
            self.cut_memo[site] = memo
        cells, heads, exits = memo['cells'], memo['heads'], memo['exits']
        keys = [self.cut_key(H, cells) for H in memo['H']]
        todo = set()

        def arrive(key, rest):
            for n, H0 in enumerate(memo['H']):
                if not self.compatible(key, keys[n]):
                    continue
                s = self.combine(H0, rest, cells)
                ks = self.partition_key(s)
                for i, e in enumerate(heads):
                    if e[0] is H0 and e[4] == ks:
                        if self.subsumed(s, e[1], e[3]):
                            break
                        j = self.join(e[1], s, widen=e[2])
                        e[1] = j
                        e[3] = e[3] | self.last_gen
                        todo.add(i)
                        break
                else:
                    heads.append([H0, s, 0, EMPTY, ks])
                    todo.add(len(heads) - 1)

        fresh = set()
        out = []

        def around(cur, back):
            """Once around the loop: its exits; back edges go to back."""
            ex = []
            for r in self.region(fn, h, [(h, None, dict(env), cur)],
                                 frame_objs):
                if r[0] != h:
                    ex.append(r)
                    continue
                benv = self.enter(fn, h, r[1], r[2], r[3])
                if tuple(sorted((repr(k), repr(v))
                                for k, v in benv.items())) != e0:
                    raise AnalysisBroken('registers live around %s' % h)
                self.curenv = env
                s = self.rename_heap(r[3])
                if not self.run_harness('sa_inv_check', fn, h, s.copy()):
                    continue
                for s in self.canonical(s):
                    k = self.cut_key(s, cells)
                    back.setdefault(tuple(sorted(
                        (c, repr(v)) for c, v in k.items())),
                        (k, []))[1].append(
                            (r[1], env, self.strip(s, cells, env)))
            return ex

        def close(back):
            for k, rests in back.values():
                for _, _, rest in self.merge_all(rests):
                    arrive(k, rest)

        # The first iteration is analysed on its own.
        back = {}
        out.extend(around(st.copy(), back))
        close(back)
        wave = 0
        while todo:
            wave += 1
            if wave > 40:
                raise Budget('no convergence at %s %s' % (fn.name, h))
            if self.trace:
                print('CUT %s wave %d: %d of %d' % (fn.name, wave, len(todo),
                                                    len(heads)), flush=True)
            back = {}
            for i in sorted(todo):
                heads[i][2] += 1
                exits[i] = around(heads[i][1].copy(), back)
                fresh.add(i)
            todo.clear()
            close(back)
        # The continuation of the exits already returned to an earlier entry
        # (same call stack) has been analysed: return the new ones.
        for i in fresh:
            out.extend(exits[i])
        if self.trace:
            print('CUT %s done: %d exits of %d' % (
                fn.name, len(out), sum(map(len, exits.values()))), flush=True)
        return [(a, b, dict(c), d.copy(), e) for a, b, c, d, e in out]

    def merge_all(self, group):
        parts = {}
        for prev, env, st in group:
            k = (self.partition_key(st), tuple(sorted(
                (repr(r), repr(v)) for r, v in env.items())))
            e = parts.get(k)
            if e is None:
                parts[k] = (prev, env, st)
                continue
            self.curenv = env
            if not self.subsumed(st, e[2]):
                parts[k] = (prev, env, self.join(e[2], st, widen=2))
        return list(parts.values())

    def strip(self, st, cells, env):
        """What is known besides the cells described by the invariant."""
        s = st.copy()
        for oid, off in cells:
            if oid not in s.mem:
                continue
            if off == 'pre':
                o = s.wobj(oid)
                o.cells.clear()
                o.pre = 0
            elif off in s.mem[oid].cells:
                del s.wobj(oid).cells[off]
        # Objects only reachable through them.
        heap = {k for k, o in s.mem.items() if o.kind == 'heap'}
        reach = set()
        work = [o for k, o in s.mem.items() if k not in heap]
        while work:
            o = work.pop()
            for w, v in o.cells.values():
                if v.__class__ is Ptr and v.obj in heap \
                        and v.obj not in reach:
                    reach.add(v.obj)
                    work.append(s.mem[v.obj])
        for k in heap - reach:
            del s.mem[k]
        self.gc(s, env.values())
        return s

    def combine(self, H0, rest, cells):
        s = rest.copy()
        for oid, o in H0.mem.items():
            if oid not in s.mem:
                s.mem[oid] = o
        for oid, off in cells:
            c = H0.mem[oid].cells.get(off)
            if off == 'pre':
                s.wobj(oid).pre = H0.mem[oid].pre
            elif c is not None:
                s.wobj(oid).cells[off] = c
            elif H0.mem[oid].default == 'zero':
                s.wobj(oid).cells.pop(off, None)
        # Atoms of the invariant that are still in use elsewhere are the
        # previous iteration's values: give those another name.
        inv = set()
        for oid, off in cells:
            c = H0.mem[oid].cells.get(off)
            if c is not None:
                self.value_atoms(c[1], inv)
        for oid, o in H0.mem.items():
            if oid not in rest.mem:
                for w, v in o.cells.values():
                    self.value_atoms(v, inv)
                self.value_atoms(o.size, inv)
        keep = self.live_atoms(rest, self.curenv.values())
        base = set()
        for oid, o in H0.mem.items():
            for off, (w, v) in o.cells.items():
                if (oid, off) not in cells and oid in rest.mem:
                    self.value_atoms(v, base)
        clash = (inv & keep) - base
        if clash:
            clash |= {m for m in self.monos(s.facts)
                      if clash & set(self.at.term_of[m][1:])}
            ren = {a: atom(self.at.new('old', self.at.lo[a], self.at.hi[a],
                                       self.at.deps[a])) for a in clash}
            for oid in list(rest.mem):
                o = rest.mem[oid]
                for off, (w, v) in list(o.cells.items()):
                    nv = v
                    if v.__class__ is Lin:
                        nv = subst(v, ren)
                    elif v.__class__ is Ptr:
                        nv = Ptr(v.obj, subst(v.off, ren))
                    elif v.__class__ is Cond:
                        nv = Cond(v.pred, v.n, self.rename_v(v.a, ren),
                                  self.rename_v(v.b, ren), v.neg)
                    if nv != v:
                        s.wobj(oid).cells[off] = (w, nv)
            f = s.facts
            f.cons = [subst(c, ren) for c in f.cons]
            f.ne = frozenset(subst(c, ren) for c in f.ne)
            b = {}
            for a, v in f.b.items():
                if a in ren:
                    b[ren[a].t[0][0]] = v
                else:
                    b[a] = v
            f.b = b
        f = s.facts
        for c in H0.facts.cons:
            if c not in f.cons:
                f.cons.append(c)
        for a, v in H0.facts.b.items():
            if a in inv and a not in base:
                f.b[a] = v
            elif a not in f.b:
                f.b[a] = v
        f.ne = f.ne | H0.facts.ne
        return s

    @staticmethod
    def rename_v(v, ren):
        if v.__class__ is Lin:
            return subst(v, ren)
        if v.__class__ is Ptr:
            return Ptr(v.obj, subst(v.off, ren))
        return v

    def solve_loop(self, fn, h, group, frame_objs):
        """Fixpoint of the loop with head h: returns its exits."""
        if self.is_cut(fn, h):
            return self.solve_cut(fn, h, group, frame_objs)
        heads = {}
        exits = {}
        items = group
        wave = 0
        while items:
            wave += 1
            if wave > 60:
                raise Budget('no convergence at %s %s %s' % (
                    fn.name, h, self.why))
            changed = {}
            if wave > 1:
                items = [(prev, env, s2) for prev, env, st in items
                         for s2 in self.canonical(st)]
            for prev, env, st in items:
                self.curenv = env
                st = self.rename_heap(st)
                key = (self.partition_key(st), tuple(sorted(
                    (repr(r), repr(v)) for r, v in env.items())))
                old = heads.get(key)
                if old is None:
                    heads[key] = [st, 0, EMPTY, env]
                    changed[key] = True
                    continue
                ost, cnt, gen, _ = old
                if self.subsumed(st, ost, gen):
                    continue
                if self.trace and cnt > 50:
                    w = self.why
                    if w.__class__ is dict:
                        w = {k: w[k] for k in w if k not in ('gen', 'r', 'f',
                                                             'of')}
                    print('WHY', w, st.facts.cons, ost.facts.cons, {a: self.at.name[a] for f in ost.facts.cons for a,_ in f.t}, st.facts.b, ost.facts.b)
                    for oid, o in st.mem.items():
                        for c in o.cells:
                            if ost.mem[oid].cells.get(c) != o.cells[c]:
                                print('  ', o.site or oid, c,
                                      ost.mem[oid].cells.get(c), o.cells[c])
                self.gc(st, env.values())
                if self.subsumed(st, ost, gen):
                    continue
                if os.environ.get('SA_JOIN') == fn.name:
                    print('JOIN', h, cnt)
                    for q in (ost, st):
                        print('  cons', q.facts.cons)
                        for oid, o in q.mem.items():
                            for c in o.cells:
                                if oid in ost.mem and oid in st.mem and ost.mem[oid].cells.get(c) \
                                        != st.mem[oid].cells.get(c):
                                    print('    ', o.site or oid, c,
                                          o.cells[c], q.facts.bounds(
                                              o.cells[c][1]))
                j = self.join(ost, st, widen=cnt)
                old[0] = j
                old[2] = gen | self.last_gen
                changed[key] = True
            items = []
            if self.trace:
                print('%s%s %s wave %d: %d states, %d of %d changed' % (
                    ' ' * len(self.stack), fn.name, h, wave, len(items),
                    len(changed), len(heads)), flush=True)
                if len(heads) > 12:
                    self.trace_keys(heads)
            for key in changed:
                st, cnt, gen, env = heads[key]
                heads[key][1] = cnt + 1
                ex = []
                s = st.copy()
                for r in self.region(fn, h, [(h, None, dict(env), s)],
                                     frame_objs):
                    if r[0] == h:
                        items.append((r[1], self.enter(fn, h, r[1], r[2],
                                                       r[3]), r[3]))
                    else:
                        ex.append(r)
                exits[key] = ex
        out = []
        for ex in exits.values():
            out.extend(ex)
        return out

    def canonical(self, state):
        """Split the state so that all its cells are in canonical range."""
        todo = []
        for oid, o in state.mem.items():
            if o.kind == 'global' and o.ro:
                continue
            for off, (w, v) in o.cells.items():
                if v.__class__ is Lin:
                    lo, hi = state.facts.bounds(v)
                    h = 1 << (8 * w - 1)
                    if lo < -h or hi >= 2 * h:
                        todo.append((oid, off, w, v))
        if not todo:
            return [state]
        states = [state.copy()]
        for oid, off, w, v in todo:
            nxt = []
            for s in states:
                for s2, x in self.canon(s, v, 8 * w, w == 4):
                    if x != v:
                        if s2 is s:
                            s2 = s.copy()
                        s2.wobj(oid).cells[off] = (w, x)
                    nxt.append(s2)
            states = nxt
        return states

    def val(self, state, env, x):
        if x.__class__ is int:
            return x
        if x.__class__ is tuple and x[0] == 'r':
            return env[x[1]]
        return self.const(state, x)

    def exec_block(self, fn, b, idx, prev, env, state, frame_objs, depth):
        """Execute from instruction idx: yields successors."""
        todo = [(idx, env, state)]
        blk = fn.blocks[b]
        out = []
        while todo:
            idx, env, state = todo.pop()
            fork = None
            while True:
                ins = blk[idx]
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Budget('step budget exhausted')
                op = ins.op
                if op == 'load':
                    p = self.val(state, env, ins.a)
                    if self.watching:
                        ss = self.watch_split(state, p, ins.ty.size)
                        if ss is not None:
                            todo.extend((idx, dict(env), s) for s in ss)
                            break
                    v = self.load(state, p, ins.ty, ins)
                    env[ins.dst] = v
                    if p.__class__ is Ptr and p.off.__class__ is int:
                        self.lastload = (ins.dst, p)
                        if ins.ty.size <= 4:
                            env[(ins.dst, 'from')] = (p.obj, p.off)
                elif op == 'store':
                    p = self.val(state, env, ins.b)
                    if self.watching:
                        ss = self.watch_split(state, p, ins.ty.size)
                        if ss is not None:
                            todo.extend((idx, dict(env), s) for s in ss)
                            break
                    self.store(state, p, ins.ty,
                               self.val(state, env, ins.a), ins)
                elif op == 'getelementptr':
                    r = self.gep(state, env, ins)
                    if r is None:
                        env[ins.dst] = Bad('invalid')
                    elif r.__class__ is list:
                        todo.extend((idx + 1, {**env, ins.dst: v}, s)
                                    for s, v in r)
                        break
                    else:
                        env[ins.dst] = r
                elif op == 'alloca':
                    oid = '%s:%d:%s' % (fn.name, depth, ins.dst)
                    n = self.val(state, env, ins.x)
                    sz = scale(n, ins.ty.size) if n.__class__ in (int, Lin) \
                        else ins.ty.size
                    o = Obj(oid, sz, 'uninit', 'stack', site=ins.var)
                    o.owner = state
                    state.mem[oid] = o
                    frame_objs.add(oid)
                    env[ins.dst] = Ptr(oid, 0)
                    if self.status and ins.dst in ir.status_vars(fn):
                        self.control.add((oid, 0))
                elif op == 'call':
                    res = self.call(state, env, ins)
                    if len(res) == 1:
                        state, rv = res[0]
                        if ins.dst:
                            env[ins.dst] = rv
                    elif not res:
                        break
                    else:
                        for s, rv in res:
                            e = dict(env)
                            if ins.dst:
                                e[ins.dst] = rv
                            todo.append((idx + 1, e, s))
                        break
                elif op == 'icmp':
                    env[ins.dst] = self.icmp(state, env, ins)
                elif op == 'br':
                    c = self.val(state, env, ins.a)
                    if c.__class__ is Bad:
                        self.alarm('uninit', state, ins,
                                   'branch on %s value' % c.why)
                        c = Opaque()
                    r = self.decide(state, c) if c.__class__ is not Opaque \
                        else None
                    if r is not None:
                        out.append((ins.b if r else ins.x, 0, env, state,
                                    None))
                        break
                    ts = self.assume(state, c, True)
                    fs = self.assume(state, c, False)
                    if self.on_event:
                        self.on_event('branch', state, None, 0, 0, c, ins)
                    for s in ts:
                        if s is state:
                            s = state.copy()
                        s.path = ((fn.name, ins.line, True), state.path)
                        out.append((ins.b, 0, dict(env), s, None))
                    for s in fs:
                        if s is state:
                            s = state.copy()
                        s.path = ((fn.name, ins.line, False), state.path)
                        out.append((ins.x, 0, dict(env), s, None))
                    break
                elif op == 'jmp':
                    out.append((ins.a, 0, env, state, None))
                    break
                elif op == 'switch':
                    out.extend(self.switch(fn, state, env, ins))
                    break
                elif op == 'ret':
                    rv = None
                    if ins.a is not None or ins.ty.k == 'ptr':
                        rv = self.val(state, env, ins.a)
                    out.append((None, 0, None, state, rv))
                    break
                elif op == 'phi':
                    pass
                elif op in ('zext', 'sext', 'trunc'):
                    r = self.cast(state, env, ins)
                    if r.__class__ is list:
                        for s, v in r:
                            e = dict(env)
                            e[ins.dst] = v
                            if (ins.a.__class__ is tuple
                                    and (ins.a[1], 'from') in env):
                                e[(ins.dst, 'from')] = env[(ins.a[1], 'from')]
                            todo.append((idx + 1, e, s))
                        break
                    env[ins.dst] = r
                    if ins.a.__class__ is tuple:
                        k = env.get((ins.a[1], 'from')) \
                            if len(ins.a) > 1 else None
                        if k:
                            env[(ins.dst, 'from')] = k
                elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl',
                            'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
                    r = self.binop(state, env, ins)
                    if r.__class__ is list:
                        for s, v in r:
                            e = dict(env)
                            e[ins.dst] = v
                            todo.append((idx + 1, e, s))
                        break
                    env[ins.dst] = r
                elif op == 'select':
                    c = self.val(state, env, ins.a)
                    x = self.val(state, env, ins.b)
                    y = self.val(state, env, ins.x)
                    r = self.decide(state, c)
                    if r is not None:
                        env[ins.dst] = x if r else y
                    elif x == y:
                        env[ins.dst] = x
                    else:
                        for t, v in ((True, x), (False, y)):
                            for s in self.assume(state, c, t):
                                if s is state:
                                    s = state.copy()
                                e = dict(env)
                                e[ins.dst] = v
                                todo.append((idx + 1, e, s))
                        break
                elif op == 'ptrtoint':
                    env[ins.dst] = self.as_int(
                        state, self.val(state, env, ins.a), 64, ins)
                elif op == 'inttoptr':
                    v = self.val(state, env, ins.a)
                    if v.__class__ is int:
                        env[ins.dst] = Ptr(None, v)
                    else:
                        env[ins.dst] = Opaque(self.deps(v), tag=('i2p', v))
                elif op == 'bitcast':
                    env[ins.dst] = self.val(state, env, ins.a)
                elif op == 'unreachable':
                    break
                elif op in ('fop', 'sitofp', 'fptosi', 'uitofp', 'fptoui',
                            'fpext', 'fptrunc'):
                    env[ins.dst] = self.unknown(ins.ty, 'fp') \
                        if ins.ty.k == 'int' else Opaque(
                            tag=('fp', self.at.new('fp', 0, 0)))
                else:
                    raise AnalysisBroken('unsupported instruction %s in %s' %
                                         (ins.x or op, fn.name))
                idx += 1
        return out

    def gep(self, state, env, ins):
        p = self.val(state, env, ins.a)
        if not ins.x:
            if p.__class__ is Ptr:
                return Ptr(p.obj, add(p.off, ins.b))
            if p.__class__ is Opaque:
                return Opaque(p.deps, tag=('gep', p.tag, ins.b))
            return p
        if p.__class__ is not Ptr:
            if p.__class__ is Opaque:
                return Opaque(p.deps, tag=('gep', p.tag,
                                           self.at.new('g', 0, 0)))
            return p
        states = [(state, add(p.off, ins.b))]
        for x, n, sc in ins.x:
            v = self.val(state, env, x)
            nxt = []
            for s, off in states:
                i = self.as_int(s, v, n, ins)
                for s2, y in self.canon(s, i, n, True):
                    nxt.append((s2, add(off, scale(y, sc))))
            states = nxt
        if len(states) == 1 and states[0][0] is state:
            return Ptr(p.obj, states[0][1])
        return [(s, Ptr(p.obj, o)) for s, o in states]

    def note_control(self, env, x):
        if x.__class__ is tuple and x[0] == 'r':
            k = env.get((x[1], 'from'))
            if k and k not in self.plain:
                self.control.add(k)

    def icmp(self, state, env, ins):
        a = self.val(state, env, ins.a)
        b = self.val(state, env, ins.b)
        if ins.ty.k == 'ptr':
            if a.__class__ is Bad or b.__class__ is Bad:
                w = a if a.__class__ is Bad else b
                if w.why != 'stale':
                    self.alarm('uninit', state, ins,
                               'comparison of %s pointer' % w.why)
                return Opaque(tag=('cmp', self.at.new('c', 0, 0)))
            if a.__class__ in (Ptr, Fn) and b.__class__ in (Ptr, Fn):
                r = self.ptr_cmp(state, ins.x, a, b)
                if r is not None:
                    return int(r)
                if (ins.x not in ('eq', 'ne') and a.__class__ is Ptr
                        and b.__class__ is Ptr and a.obj == b.obj):
                    return Cond('s' + ins.x[1:], 64, a.off, b.off)
                return Cond(ins.x, 0, a, b)
            # Null tests of unknown pointers.
            return self.unknown_ptr_cmp(state, ins, a, b)
        n = ins.ty.n
        if ins.x in ('eq', 'ne'):
            if a.__class__ is Cond and b.__class__ is int:
                t = a if (b != 0) == (ins.x == 'eq') else a.inv()
                return t
            if b.__class__ is int and n <= 32:
                self.note_control(env, ins.a)
        a = self.as_int(state, a, n, ins)
        b = self.as_int(state, b, n, ins)
        c = Cond(ins.x, n, a, b)
        if a.__class__ is int and b.__class__ is int:
            return int(self.decide0(state, c))
        if ins.x not in ('eq', 'ne'):
            # Comparisons whose operands need canonical ranges are resolved
            # when they are assumed.
            f = state.facts
            sg = ins.x in SIGNED
            la = self.canon_quick(f, a, n, sg)
            lb = self.canon_quick(f, b, n, sg)
            if la is not None and lb is not None:
                d = sub(la, lb)
                lo, hi = f.bounds(d)
                t = ins.x[1:]
                if t == 'lt':
                    r = True if hi < 0 else False if lo >= 0 else None
                elif t == 'le':
                    r = True if hi <= 0 else False if lo > 0 else None
                elif t == 'gt':
                    r = True if lo > 0 else False if hi <= 0 else None
                else:
                    r = True if lo >= 0 else False if hi < 0 else None
                if r is not None:
                    return int(r)
        return c

    def canon_quick(self, f, v, n, signed):
        m = 1 << n
        if v.__class__ is int:
            v &= m - 1
            if signed and v >= m >> 1:
                v -= m
            return v
        lo, hi = f.bounds(v)
        if signed:
            return v if lo >= -(m >> 1) and hi < m >> 1 else None
        return v if lo >= 0 and hi < m else None

    def unknown_ptr_cmp(self, state, ins, a, b):
        k = ('pcmp', ins.x, repr(a), repr(b))
        at = self.at.term(k, 0, 1, EMPTY)
        return Cond('ne', 8, atom(at), 0)

    def switch(self, fn, state, env, ins):
        v = self.val(state, env, ins.a)
        self.note_control(env, ins.a)
        n = ins.ty.n
        v = self.as_int(state, v, n, ins)
        out = []
        c = state.facts.const(v) if v.__class__ is Lin else v
        if c is not None:
            m = (1 << n) - 1
            for k, l in ins.x:
                if (k & m) == (c & m):
                    return [(l, 0, env, state, None)]
            return [(ins.b, 0, env, state, None)]
        if self.on_event:
            self.on_event('branch', state, None, 0, 0, v, ins)
        rest = [state]
        for k, l in ins.x:
            nrest = []
            for s in rest:
                cnd = Cond('eq', n, v, k)
                for s2 in self.assume(s, cnd, True):
                    if s2 is s:
                        s2 = s.copy()
                    s2.path = ((fn.name, ins.line, k), state.path)
                    out.append((l, 0, dict(env), s2, None))
                nrest.extend(self.assume(s, cnd, False))
            rest = nrest
        for s in rest:
            # All values of a small range listed: default infeasible.
            lo, hi = s.facts.bounds(v)
            if hi - lo < 64:
                ks = {k for k, _ in ins.x}
                if all(x in ks for x in range(lo, hi + 1)):
                    continue
            if s is state:
                s = state.copy()
            s.path = ((fn.name, ins.line, 'default'), state.path)
            out.append((ins.b, 0, dict(env), s, None))
        return out

    def cast(self, state, env, ins):
        v = self.val(state, env, ins.a)
        if v.__class__ is Bad:
            self.alarm('uninit', state, ins, 'use of %s value' % v.why)
            return self.unknown(ins.ty, 'bad')
        n = ins.x.n
        m = ins.ty.n
        if v.__class__ is Cond:
            if ins.op == 'sext':
                v = self.as_int(state, v, n, ins)
                return scale(v, -1)
            return v
        v = self.as_int(state, v, n, ins)
        if ins.op == 'trunc':
            if v.__class__ is int:
                return self.norm(v, m)
            if m == 1:
                lo, hi = state.facts.bounds(v)
                if lo >= 0 and hi <= 1:
                    return Cond('ne', n, v, 0)
                return Cond('ne', n, self.band(state, v, 1, n), 0)
            lo, hi = state.facts.bounds(v)
            h = 1 << (m - 1)
            if (lo >= -h and hi < h) or (lo >= 0 and hi < 2 * h):
                return v
            f = state.facts
            if f.cons:
                if f.le0(sub(v, h - 1)) and f.le0(sub(-h, v)):
                    return v
            # x & (2^m - 1) in disguise: share the term with 'and'.
            return self.band(state, v, (1 << m) - 1, n, signed=(m == 32))
        signed = ins.op == 'sext'
        if v.__class__ is int:
            v &= (1 << n) - 1
            if signed and v >> (n - 1):
                v -= 1 << n
            return v
        r = self.canon(state, v, n, signed)
        if len(r) == 1 and r[0][0] is state:
            return r[0][1]
        return r

    @staticmethod
    def norm(v, n):
        v &= (1 << n) - 1
        if n >= 32 and v >> (n - 1):
            v -= 1 << n
        return v

    def band(self, state, v, mask, n, signed=False):
        """v & mask (mask constant >= 0)."""
        lo, hi = state.facts.bounds(v)
        k = mask + 1
        if lo >= 0 and hi < (1 << 64) and not signed:
            # The bits lo and hi have in common.
            lo, hi = int(lo), int(hi)
            same = (lo ^ hi).bit_length()
            if mask & ((1 << same) - 1) == 0:
                return lo & mask
            if k & mask == 0 and same < k.bit_length():
                return sub(v, lo & ~mask)
        if k & mask == 0:         # mask = 2^j - 1
            if lo >= 0 and hi <= mask:
                return v
            if lo < 0 and lo >= -k and hi < 0 and not signed:
                return add(v, k)
            # (2^j * y + r) & (2^j - 1)
            if v.__class__ is Lin:
                keep = tuple((a, c) for a, c in v.t if c % k)
                if len(keep) != len(v.t):
                    return self.band(state, mk(v.c % k, keep), mask, n,
                                     signed) if keep else v.c % k
            if signed:
                h = k >> 1
                return self.term('strunc', (v, mask), n, -h, h - 1)
            return self.term('and', (v, mask), n, 0, mask)
        return self.bterm(state, 'and', (v, mask), n, 0,
                          min(mask, hi) if lo >= 0 else mask)

    def binop(self, state, env, ins):
        a = self.val(state, env, ins.a)
        b = self.val(state, env, ins.b)
        op = ins.op
        n = ins.ty.n
        # Boolean algebra on conditions.
        if a.__class__ is Cond and b.__class__ is int:
            if op == 'xor' and b & 1:
                return a.inv()
            if op == 'and' and b & 1:
                return a
        if a.__class__ is Cond or b.__class__ is Cond:
            # Resolve by forking so that the information is kept.
            return self.fork_cond(state, env, ins, a, b)
        a = self.as_int(state, a, n, ins)
        b = self.as_int(state, b, n, ins)
        f = state.facts
        if op == 'add' or op == 'sub':
            r = add(a, b) if op == 'add' else sub(a, b)
            if 'nsw' in ins.flags and self.check_nsw:
                return self.nsw(state, r, n, ins)
            if r.__class__ is int:
                return self.norm(r, n)
            return r
        if op == 'mul':
            if a.__class__ is int:
                a, b = b, a
            if b.__class__ is int or f.const(b) is not None:
                r = scale(a, f.const(b))
            elif f.const(a) is not None:
                r = scale(b, f.const(a))
            else:
                r = self.mul(state, a, b, n)
            if 'nsw' in ins.flags and self.check_nsw:
                return self.nsw(state, r, n, ins)
            if r.__class__ is int:
                return self.norm(r, n)
            return r
        if op in ('shl', 'lshr', 'ashr'):
            return self.shift(state, op, a, b, n, ins)
        if op == 'and':
            ca, cb = f.const(a), f.const(b)
            if ca is not None and cb is not None:
                return self.norm(ca & cb, n)
            if ca is not None:
                a, b, cb = b, a, ca
            if cb is not None:
                if cb >= 0:
                    return self.band(state, a, cb, n)
                full = cb & ((1 << n) - 1)
                return self.term('and', (a, full), n)
            la, ha = f.bounds(a)
            lb, hb = f.bounds(b)
            hi = None
            if la >= 0:
                hi = ha
            if lb >= 0:
                hi = hb if hi is None else min(hi, hb)
            if hi is not None:
                r = self.term('and', tuple(sorted((a, b), key=repr)), n, 0,
                              (1 << n) - 1)
                s = state
                try:
                    s.facts.add_le0(sub(r, hi))
                    # r <= each non-negative operand
                    if la >= 0:
                        s.facts.add_le0(sub(r, a))
                    if lb >= 0:
                        s.facts.add_le0(sub(r, b))
                except Infeasible:
                    return []
                return r
            return self.term('and', tuple(sorted((a, b), key=repr)), n)
        if op in ('or', 'xor'):
            ca, cb = f.const(a), f.const(b)
            if ca is not None and cb is not None:
                return self.norm(ca | cb if op == 'or' else ca ^ cb, n)
            if cb == 0:
                return a
            if ca == 0:
                return b
            if op == 'xor' and cb == -1:
                return sub(-1, a)
            la, ha = f.bounds(a)
            lb, hb = f.bounds(b)
            if la >= 0 and lb >= 0:
                # Disjoint bits: addition.
                r = self.disjoint(state, a, b)
                if r is not None:
                    return r
                bits = max(int(ha).bit_length(), int(hb).bit_length())
                lo = max(la, lb) if op == 'or' else 0
                return self.bterm(state, op, tuple(sorted((a, b), key=repr)),
                                  n, lo, (1 << bits) - 1)
            return self.term(op, tuple(sorted((a, b), key=repr)), n)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            return self.division(state, op, a, b, n, ins)
        raise AnalysisBroken(op)

    def disjoint(self, state, a, b):
        """a | b when a's bits lie below b's (or vice versa)."""
        f = state.facts
        for x, y in ((a, b), (b, a)):
            if y.__class__ is int:
                tz = (y & -y).bit_length() - 1
            else:
                g = y.c
                from math import gcd
                for _, k in y.t:
                    g = gcd(g, k)
                g = abs(g)
                tz = (g & -g).bit_length() - 1
            hi = f.bounds(x)[1]
            if tz > 0 and hi < (1 << tz):
                return add(x, y)
        return None

    def mul(self, state, a, b, n):
        f = state.facts
        # Distribute over linear forms: monomials are atoms.
        fa = a if a.__class__ is Lin else Lin(a, ())
        fb = b if b.__class__ is Lin else Lin(b, ())
        if len(fa.t) + len(fb.t) > 6:
            return self.term('mul', tuple(sorted((a, b), key=repr)), n)
        r = fa.c * fb.c
        for x, k in fa.t:
            if fb.c:
                r = add(r, Lin(0, ((x, k * fb.c),)))
            for y, k2 in fb.t:
                if f.const(atom(x)) is not None:
                    r = add(r, Lin(0, ((y, k * k2 * f.const(atom(x))),)))
                    continue
                if f.const(atom(y)) is not None:
                    r = add(r, Lin(0, ((x, k * k2 * f.const(atom(y))),)))
                    continue
                r = add(r, scale(self.monomial(state, x, y), k * k2))
        for y, k2 in fb.t:
            if fa.c:
                r = add(r, Lin(0, ((y, k2 * fa.c),)))
        return r

    def monomial(self, state, x, y):
        if x > y:
            x, y = y, x
        f = state.facts
        l1, h1 = f.ab(x)
        l2, h2 = f.ab(y)
        c = (l1 * l2, l1 * h2, h1 * l2, h1 * h2)
        # The monomial is the exact (mathematical) product: its atom has no
        # finite type range, only what the operands give.
        key = ('mono', x, y)
        self.has_mono = True
        a = self.at.terms.get(key)
        if a is None:
            bl = (self.at.lo[x], self.at.hi[x])
            bh = (self.at.lo[y], self.at.hi[y])
            cc = [p * q for p in bl for q in bh]
            a = self.at.term(key, min(cc), max(cc),
                             self.at.deps[x] | self.at.deps[y])
        cur = f.ab(a)
        lo, hi = max(cur[0], min(c)), min(cur[1], max(c))
        if (lo, hi) != cur:
            f.b[a] = (lo, hi)
        return atom(a)

    def nsw(self, state, r, n, ins):
        self.oblige('signed-overflow', ins)
        h = 1 << (n - 1)
        f = state.facts
        if r.__class__ is int:
            if not -h <= r < h:
                self.alarm('arith', state, ins, 'signed integer overflow')
            return self.norm(r, n)
        lo, hi = f.bounds(r)
        bad = False
        if hi >= h and not f.le0(sub(r, h - 1)):
            bad = True
            try:
                f.add_le0(sub(r, h - 1))
            except Infeasible:
                self.alarm('arith', state, ins, 'signed integer overflow')
                return []
        if lo < -h and not f.le0(sub(-h, r)):
            bad = True
            try:
                f.add_le0(sub(-h, r))
            except Infeasible:
                self.alarm('arith', state, ins, 'signed integer overflow')
                return []
        if bad:
            self.alarm('arith', state, ins, 'signed integer overflow')
        return r

    def shift(self, state, op, a, b, n, ins):
        f = state.facts
        self.oblige('shift', ins)
        cb = f.const(b)
        if cb is None:
            lo, hi = f.bounds(b)
            if lo < 0 or hi >= n:
                self.alarm('arith', state, ins, 'shift count out of range')
                try:
                    f.add_le0(scale(b, -1))
                    f.add_le0(sub(b, n - 1))
                except Infeasible:
                    return []
                lo, hi = f.bounds(b)
            if hi == lo:
                cb = lo
            elif hi - lo <= 16 and (a.__class__ is int):
                out = []
                for k in range(lo, hi + 1):
                    s = state.copy()
                    try:
                        s.facts.add_eq0(sub(b, k))
                    except Infeasible:
                        continue
                    r = self.shift(s, op, a, k, n, ins)
                    if r.__class__ is list:
                        out.extend(r)
                    else:
                        out.append((s, r))
                return out
            else:
                la, ha = f.bounds(a)
                if op == 'shl':
                    if la >= 0 and (ha << hi) < (1 << n):
                        return self.bterm(state, 'shln', (a, b), n, la << lo,
                                          ha << hi)
                    return self.term('shl', (a, b), n)
                if la >= 0:
                    return self.bterm(state, op + 'n', (a, b), n, la >> hi,
                                      ha >> lo)
                return self.term(op, (a, b), n)
        if cb < 0 or cb >= n:
            self.alarm('arith', state, ins, 'shift count out of range')
            return self.fresh('shift', n)
        if op == 'shl':
            r = scale(a, 1 << cb)
            if r.__class__ is int:
                return self.norm(r, n)
            lo, hi = f.bounds(r)
            if hi >= 1 << (n + 1) or lo < -(1 << (n + 1)):
                return self.term('shl', (a, cb), n, signed=False)
            return r
        ca = f.const(a)
        if ca is not None:
            if op == 'lshr':
                return self.norm((ca & ((1 << n) - 1)) >> cb, n)
            return self.norm(ca, n) >> cb if n >= 32 else ca >> cb
        signed = op == 'ashr'
        rs = self.canon(state, a, n, signed)
        out = []
        for s, v in rs:
            lo, hi = s.facts.bounds(v)
            if v.__class__ is Lin and cb:
                # Exact division of a linear form?
                k = 1 << cb
                if v.c % k == 0 and all(c % k == 0 for _, c in v.t):
                    out.append((s, Lin(v.c // k, tuple(
                        (x, c // k) for x, c in v.t))))
                    continue
                r = self.bterm(s, 'shr', (v, cb), n, lo >> cb, hi >> cb)
                try:
                    # r*k <= v <= r*k + k-1
                    s.facts.add_le0(sub(scale(r, k), v))
                    s.facts.add_le0(sub(v, add(scale(r, k), k - 1)))
                except Infeasible:
                    continue
                out.append((s, r))
            else:
                out.append((s, v if not cb else v >> cb))
        if len(out) == 1 and out[0][0] is state:
            return out[0][1]
        return out

    def division(self, state, op, a, b, n, ins):
        f = state.facts
        self.oblige('division', ins)
        cb = f.const(b)
        if cb == 0:
            self.alarm('arith', state, ins, 'division by zero')
            return []
        if cb is None:
            # Modular representation: b == 0 mod 2^n matters.
            if not f.known_ne0(b):
                self.alarm('arith', state, ins, 'division by zero')
                try:
                    f.add_ne0(b)
                except Infeasible:
                    return []
        signed = op[0] == 's'
        out = []
        for s, x, y in self.canon2(state, a, b, n, signed):
            f = s.facts
            cx, cy = f.const(x), f.const(y)
            if cy == 0:
                continue
            if cx is not None and cy is not None:
                q = abs(cx) // abs(cy)
                if (cx < 0) != (cy < 0):
                    q = -q
                r = cx - q * cy
                out.append((s, q if op[1:] == 'div' else r))
                continue
            lo, hi = f.bounds(x)
            if x.__class__ is Lin and (lo < 0 or hi >= 1 << n):
                lo, hi = f.tight(x, lo, hi)
                if lo < 0 and f.le0(scale(x, -1)):
                    lo = 0
            if cy is not None and cy > 1 and lo >= 0 and x.__class__ is Lin:
                # A multiple of the divisor and a remainder?
                whole = Lin(x.c - x.c % cy,
                            tuple((t, k) for t, k in x.t if k % cy == 0))
                rest = sub(x, whole)
                rlo, rhi = f.bounds(rest)
                if whole.t and rlo >= 0 and rhi < cy:
                    q = Lin(whole.c // cy,
                            tuple((t, k // cy) for t, k in whole.t))
                    out.append((s, q if op[1:] == 'div' else rest))
                    continue
            if cy is not None and cy > 0 and lo >= 0:
                q = self.bterm(s, 'div', (x, cy), n, lo // cy, hi // cy)
                try:
                    f.add_le0(sub(scale(q, cy), x))
                    f.add_le0(sub(x, add(scale(q, cy), cy - 1)))
                    if self.rich and f.le0(sub(cy, x)):
                        # Follows, but not by adding up constraints.
                        self.at.exact = False
                        f.add_le0(add(sub(q, x), int(cy > 1)))
                        self.at.exact = True
                except Infeasible:
                    continue
                out.append((s, q if op[1:] == 'div'
                            else sub(x, scale(q, cy))))
                continue
            if lo >= 0:
                ylo, yhi = f.bounds(y)
                if op[1:] == 'div':
                    q = self.term(op, (x, y), n, signed=signed)
                    try:
                        f.add_le0(scale(q, -1)) if ylo >= 0 else None
                        if ylo >= 0:
                            f.add_le0(sub(q, x))
                    except Infeasible:
                        continue
                    out.append((s, q))
                else:
                    r = self.term(op, (x, y), n, signed=signed)
                    try:
                        f.add_le0(scale(r, -1))
                        f.add_le0(sub(r, x))
                        if ylo >= 0:
                            f.add_le0(add(sub(r, y), 1))
                    except Infeasible:
                        continue
                    out.append((s, r))
                continue
            out.append((s, self.term(op, (x, y), n, signed=signed)))
        if len(out) == 1 and out[0][0] is state:
            return out[0][1]
        return out

    def fork_cond(self, state, env, ins, a, b):
        out = []
        c = a if a.__class__ is Cond else b
        for t in (True, False):
            for s in self.assume(state, c, t):
                if s is state:
                    s = state.copy()
                e = dict(env)
                k = '%fork'
                x = int(t) if a is c else a
                y = int(t) if b is c else b
                i2 = ir.Instr(ins.op, ins.dst)
                i2.ty, i2.flags, i2.line, i2.fn = (ins.ty, ins.flags, ins.line,
                                                   ins.fn)
                i2.a, i2.b = ('r', '%fa'), ('r', '%fb')
                e['%fa'], e['%fb'] = x, y
                r = self.binop(s, e, i2)
                if r.__class__ is list:
                    out.extend(r)
                else:
                    out.append((s, r))
        return out

    # ------------------------------------------------------------ calls
    def call(self, state, env, ins):
        if ins.a == ('asm',):
            return [(state, self.unknown(ins.ty, 'asm')
                     if ins.ty.k == 'int' else Opaque())]
        args = [self.val(state, env, v) for _, v in ins.b]
        f = self.val(state, env, ins.a)
        for x in args:
            if x.__class__ is Bad and x.why != 'stale':
                self.alarm('uninit', state, ins,
                           '%s value passed to a function' % x.why)
        args = [self.unknown(t, 'badarg') if x.__class__ is Bad
                and x.why != 'stale' else x
                for x, (t, _) in zip(args, ins.b)]
        if f.__class__ is not Fn:
            self.oblige('indirect-call', ins)
            if f.__class__ is Ptr and f.obj is None:
                self.alarm('memory', state, ins, 'call through null pointer')
            elif f.__class__ is Bad:
                self.alarm('memory', state, ins,
                           'call through %s function pointer' % f.why)
            else:
                self.alarm('memory', state, ins,
                           'call through unknown function pointer')
            return []
        return self.call_name(state, f.name, args, ins, env)

    def call_name(self, state, name, args, ins, env=None):
        env = env or {}
        fn = self.m.functions.get(name)
        contract = self.m.functions.get('sa_contract_' + name)
        if contract is not None and ins.fn is not None \
                and (ins.fn.file or '').startswith(self.repo):
            fn = contract
        self.callsites.add((ins.fn.name if ins.fn else '?', ins.line, name))
        model = self.models.get(name)
        if model is not None or fn is not None:
            live = ins.fn.callive.get(id(ins)) if ins.fn is not None and \
                ins.fn.callive else None
            regs = set()
            if live:
                for k in live:
                    self.value_atoms(env.get(k), regs)
            self.stack.append((ins.fn, ins))
            self.regs.append(regs)
            try:
                if fn is None:
                    return model(self, state, args, ins)
                return self.exec_function(fn, args, state)
            finally:
                self.stack.pop()
                self.regs.pop()
        if name.startswith('llvm.'):
            return self.intrinsic(state, name, args, ins)
        return self.default_external(state, name, args, ins)

    def default_external(self, state, name, args, ins):
        raise AnalysisBroken('no model for external function %s (called from '
                             '%s:%d)' % (name, ins.fn.name, ins.line))

    def intrinsic(self, state, name, args, ins):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            return [(s, None) for s in self.memcpys(state, args[0], args[1],
                                                    args[2], ins)]
        if name.startswith('llvm.memset'):
            return [(s, None) for s in self.memsets(state, args[0], args[1],
                                                    args[2], ins)]
        if name.startswith(('llvm.va_start', 'llvm.va_end', 'llvm.assume',
                            'llvm.stacksave', 'llvm.stackrestore')):
            return [(state, Opaque(tag=name))]
        if name.startswith('llvm.expect'):
            return [(state, args[0])]
        if name.startswith('llvm.trap'):
            return []
        raise AnalysisBroken('intrinsic %s' % name)

    # ------------------------------------------------------------ joining
    def cellkey(self, state, oid, off, v):
        c = v.__class__
        if c is Ptr:
            return ('p', v.obj)
        if c is Fn:
            return ('f', v.name)
        if c is Bad:
            return ('b', v.why)
        if (oid, off) in self.control:
            if c is Cond:
                return None
            if oid.startswith('watch:'):
                return ('w', repr(v))
            if c is Lin:
                v = state.facts.const(v)
                if v is None:
                    return ('sym',)
            if v.__class__ is int:
                if -40 <= v <= (4 if self.rich else 40):
                    return ('c', v)
                if v < 0:
                    return ('neg',)
                return ('big',)
        return None

    def partition_key(self, state):
        r = []
        for oid in state.mem:
            o = state.mem[oid]
            if o.kind == 'global' and o.ro:
                continue
            if o.tags:
                r.append((oid, 'tags', o.tags))
            for off, (w, v) in o.cells.items():
                if v.__class__ is Lin and (oid, off) not in self.control:
                    continue
                k = self.cellkey(state, oid, off, v)
                if k is not None:
                    r.append((oid, off, k))
        r.sort(key=repr)
        g = tuple(sorted(state.ghost.items(), key=repr))
        return (tuple(r), g, tuple(sorted(
            k for k in state.mem if not k.startswith('@'))))

    def rename_heap(self, state):
        """Give heap objects canonical names (by the cell that refers to
        them) so that loops allocating memory converge."""
        heap = [k for k, o in state.mem.items()
                if o.kind == 'heap' and not k.startswith('h:')]
        if not heap and not any(k.startswith('h:') for k in state.mem):
            return state
        refs = {}
        roots = sorted(k for k, o in state.mem.items() if o.kind != 'heap')
        order = list(roots)
        seen = set(order)
        names = {}
        i = 0
        while i < len(order):
            oid = order[i]
            i += 1
            o = state.mem[oid]
            base = names.get(oid, oid)
            for off in sorted(o.cells):
                v = o.cells[off][1]
                if v.__class__ is Ptr and v.obj in state.mem \
                        and v.obj not in seen:
                    seen.add(v.obj)
                    names[v.obj] = 'h:%s+%d' % (base, off)
                    order.append(v.obj)
        lost = [k for k, o in state.mem.items()
                if o.kind == 'heap' and k not in seen]
        for k in lost:
            self.lost_object(state, state.mem[k])
        ren = {k: v for k, v in names.items() if k != v}
        if not ren and not lost:
            return state
        s = state.copy()
        for k in lost:
            s.mem.pop(k, None)
            s.mem.pop('watch:' + k, None)
        if not ren:
            return s
        for k, v in list(ren.items()):
            if 'watch:' + k in s.mem:
                ren['watch:' + k] = 'watch:' + v
                self.control.add(('watch:' + v, 8))
        mem = {}
        for k, o in s.mem.items():
            o2 = o.clone()
            o2.owner = s
            o2.id = ren.get(k, k)
            for off, (w, v) in list(o2.cells.items()):
                if v.__class__ is Ptr and v.obj in ren:
                    o2.cells[off] = (w, Ptr(ren[v.obj], v.off))
            mem[o2.id] = o2
        s.mem = mem
        for k, g in list(s.ghost.items()):
            pass
        return s

    def lost_object(self, state, o):
        if 'dead' not in o.tags:
            self.alarm('leak', state, None,
                       'memory allocated at line %s is lost without being '
                       'released' % o.site)

    # A value that can be generalised.
    @staticmethod
    def numeric(v):
        return v.__class__ is int or v.__class__ is Lin

    def match(self, s, old, gen):
        """Substitution generalised-atom -> value under which old's cells
        equal s's; None if impossible."""
        sig = {}
        shared = []
        fs = s.facts
        if s.mem.keys() != old.mem.keys():
            ks = {k for k in s.mem if not k.startswith('@')}
            ko = {k for k in old.mem if not k.startswith('@')}
            if ks != ko:
                return None
        eqs = []
        for oid, oo in old.mem.items():
            so = s.mem.get(oid)
            if so is None:
                continue
            if so is oo:
                shared.append(oo)
                continue
            if so.size.__class__ is Lin or so.size != oo.size:
                self.unify(oo.size, so.size, sig, eqs, gen)
            if oo.default != so.default and oo.default != 'unknown' \
                    and not (oo.default == 'uninit'):
                return None
            if oo.default == 'uninit' and so.default == 'uninit':
                self.unify(oo.pre, so.pre, sig, eqs, gen)
            elif oo.default == 'uninit':
                self.unify(oo.pre, so.size, sig, eqs, gen)
            if not so.deps <= oo.deps:
                return None
            for off, (w, ov) in oo.cells.items():
                c = so.cells.get(off)
                if c is None:
                    if so.default == 'zero' and oo.default != 'uninit':
                        v = 0
                    elif so.default == 'unknown':
                        return None
                    elif ov.__class__ is Bad:
                        continue
                    else:
                        return None
                elif c[0] != w:
                    return None
                else:
                    v = c[1]
                if v == ov and v.__class__ is ov.__class__:
                    if v.__class__ is Lin:
                        self.unify(ov, v, sig, eqs, gen)
                    elif v.__class__ is Ptr and v.off.__class__ is Lin:
                        self.unify(ov.off, v.off, sig, eqs, gen)
                    elif v.__class__ is Cond:
                        for y in (v.a, v.b):
                            if y.__class__ is Lin:
                                self.unify(y, y, sig, eqs, gen)
                    continue
                if ov.__class__ is Ptr:
                    if v.__class__ is not Ptr or v.obj != ov.obj:
                        return None
                    self.unify(ov.off, v.off, sig, eqs, gen)
                elif self.numeric(ov) and self.numeric(v):
                    self.unify(ov, v, sig, eqs, gen)
                elif ov.__class__ is Lin and v.__class__ in (Cond,):
                    if len(ov.t) == 1 and ov.t[0][1] == 1 and ov.c == 0:
                        lo, hi = old.facts.bounds(ov)
                        if lo <= 0 and hi >= 1:
                            continue
                    return None
                elif ov.__class__ is Bad:
                    continue
                elif ov.__class__ is Opaque:
                    # Opaque covers anything (its uses are reported).
                    if not self.deps(v) <= ov.deps:
                        return None
                    continue
                else:
                    return None
            if oo.default != 'unknown':
                for off in so.cells:
                    if off not in oo.cells:
                        if oo.default == 'uninit':
                            continue
                        return None
        if any(v != atom(a) for a, v in sig.items()):
            # Atoms of objects that did not change keep their meaning.
            for o in shared:
                for w, v in o.cells.values():
                    if v.__class__ is Ptr:
                        v = v.off
                    if v.__class__ is Lin:
                        if any(a in gen for a, _ in v.t):
                            self.unify(v, v, sig, eqs, gen)
                if o.size.__class__ is Lin:
                    self.unify(o.size, o.size, sig, eqs, gen)
        return sig, eqs

    def unify(self, ov, v, sig, eqs, gen):
        if ov.__class__ is Lin and len(ov.t) == 1 and ov.t[0][1] > 0:
            a, g = ov.t[0]
            if a in gen:
                w = sub(v, ov.c)
                if g > 1:
                    if w.__class__ is int:
                        ok = w % g == 0
                    else:
                        ok = w.c % g == 0 and all(k % g == 0
                                                  for _, k in w.t)
                    if not ok:
                        eqs.append((ov, v))
                        return
                    w = self.divide(w, g)
                if a not in sig:
                    sig[a] = w
                    return
                if sig[a] == w:
                    return
        eqs.append((ov, v))

    def subsumed(self, s, old, gen=EMPTY):
        exact, self.at.exact = self.at.exact, False
        try:
            return self.subsumed0(s, old, gen)
        finally:
            self.at.exact = exact

    def subsumed0(self, s, old, gen):
        r = self.match(s, old, gen)
        if r is None:
            self.why = 'cells'
            return False
        sig, eqs = r
        f = s.facts
        for ov, v in eqs:
            x = sub(subst(ov, sig), v)
            if x.__class__ is int:
                if x != 0:
                    self.why = (dict(list(locals().items())[3:]))
                    return False
            elif not f.eq0(x):
                self.why = (dict(list(locals().items())[3:]))
                return False
        of = old.facts
        for m in self.monos(of):
            _, x, y = self.at.term_of[m]
            if m not in sig and (x in sig or y in sig):
                sig[m] = self.mul(s, sig.get(x, atom(x)),
                                  sig.get(y, atom(y)), 64)
        for a, v in sig.items():
            lo, hi = of.ab(a)
            l, h = f.bounds(v)
            if l < lo and not f.le0(sub(lo, v)):
                self.why = (dict(list(locals().items())[3:]))
                return False
            if h > hi and not f.le0(sub(v, hi)):
                self.why = (dict(list(locals().items())[3:]))
                return False
            if v.__class__ is not int:
                if not self.deps(v) <= self.at.deps[a]:
                    self.why = (dict(list(locals().items())[3:]))
                    return False
        for a, (lo, hi) in of.b.items():
            if a in sig:
                continue
            l, h = f.ab(a)
            if (l < lo or h > hi):
                x = atom(a)
                if not (f.le0(sub(lo, x)) and f.le0(sub(x, hi))):
                    self.why = (dict(list(locals().items())[3:]))
                    return False
        for c in of.cons:
            if not f.le0(subst(c, sig)):
                self.why = (dict(list(locals().items())[3:]))
                return False
        for x in of.ne:
            if not f.known_ne0(subst(x, sig)):
                self.why = (dict(list(locals().items())[3:]))
                return False
        return True

    WIDEN = [-(1 << 64), -(1 << 63), -(1 << 31), -(1 << 28), -(1 << 27), -128, -1, 0, 1,
             2, 6, 7, 8, 15,
             16, 20, 21, 27, 28, 32, 127, 128, 255, 256, 511, 512, 65535,
             (1 << 27) - 1,
             1 << 27, (1 << 28) - 1, 1 << 28, (1 << 31) - 1, (1 << 32) - 1,
             (1 << 63) - 1, (1 << 64) - 1, 1 << 65]

    def widen_bounds(self, lo, hi, olo, ohi, cnt):
        if cnt < 3:
            return lo, hi
        if cnt > 8:
            W = [-(1 << 64), -(1 << 63), -(1 << 31), 0, (1 << 31) - 1,
                 (1 << 32) - 1, (1 << 64) - 1, 1 << 65]
        else:
            W = self.WIDEN
        if lo < olo:
            c = [x for x in W if x <= lo]
            lo = max(c) if c else lo
        if hi > ohi:
            c = [x for x in W if x >= hi]
            hi = min(c) if c else hi
        return lo, hi

    def join(self, A, B, widen=0):
        exact, self.at.exact = self.at.exact, False
        try:
            return self.join0(A, B, widen)
        finally:
            self.at.exact = exact

    def join0(self, A, B, widen):
        """Upper bound of A and B (same partition)."""
        fa, fb = A.facts, B.facts
        J = State(self.at)
        J.ghost = dict(A.ghost)
        J.path = B.path
        pairs = {}      # (vA, vB) -> new atom value
        order = []
        self.last_gen = EMPTY
        wide = set()
        grown = set()
        near = []
        sigA = {}       # new atom -> vA
        sigB = {}

        def gen(va, vb, w):
            if va == vb and va.__class__ is vb.__class__:
                return va
            ca = fa.const(va)
            if ca is not None and ca == fb.const(vb):
                return ca
            k = (va, vb)
            r = pairs.get(k)
            if r is not None:
                return r
            la, ha = fa.bounds(va)
            lb, hb = fb.bounds(vb)
            # Bounds that follow from the constraints.
            if va.__class__ is Lin and fa.cons:
                la, ha = fa.tight(va, la, ha)
            if vb.__class__ is Lin and fb.cons:
                lb, hb = fb.tight(vb, lb, hb)
            if vb.__class__ is Lin and fb.cons:
                if hb > ha and fb.le0(sub(vb, ha)):
                    hb = ha
                if lb < la and fb.le0(sub(la, vb)):
                    lb = la
            if va.__class__ is Lin and fa.cons:
                if ha > hb and fa.le0(sub(va, hb)):
                    ha = hb
                if la < lb and fa.le0(sub(lb, va)):
                    la = lb
            if w >= 4:
                # The same representatives modulo 2^n on both sides.
                m = 1 << (8 * w)
                if la >= m >> 1 and lb < m >> 1 and hb < m >> 1:
                    va, la, ha = sub(va, m), la - m, ha - m
                elif lb >= m >> 1 and la < m >> 1 and ha < m >> 1:
                    vb, lb, hb = sub(vb, m), lb - m, hb - m
            if la == ha and lb == hb and la == lb:
                pairs[k] = la
                return la
            lo, hi = min(la, lb), max(ha, hb)
            lo, hi = self.widen_bounds(lo, hi, la, ha, widen)
            blown = hi > ha and widen >= 3
            n = 8 * w
            h = 1 << (n - 1)
            if lo < 0 and (lo < -h or hi >= h) or hi >= 2 * h:
                # Too far from the canonical range: keep only the value
                # modulo 2^n.
                r = self.fresh('wide', n, self.deps(va) | self.deps(vb))
                pairs[k] = r
                wide.add(r.t[0][0])
                return r
            if self.watching:
                # Common distance to another changed value.
                for x in order:
                    if len(x.t) != 1 or x.t[0][1] != 1 or x.c:
                        continue
                    y = x.t[0][0]
                    d = sub(va, sigA[y])
                    if d == sub(vb, sigB[y]):
                        v = add(x, d)
                    else:
                        d = add(va, sigA[y])
                        if d != add(vb, sigB[y]):
                            continue
                        v = sub(d, x)
                    pairs[k] = v
                    near.append((v, lo, hi))
                    return v
            a = self.at.new('j', -(1 << n), (1 << n),
                            self.deps(va) | self.deps(vb))
            # Common stride: the value is base + g * a.
            g = 0
            for x in (va, vb):
                if x.__class__ is Lin:
                    for _, q in x.t:
                        g = gcd(g, q)
            base = va if va.__class__ is int else va.c
            g = gcd(g, base - (vb if vb.__class__ is int else vb.c))
            if 1 < g < 4096:
                base %= g
                J.facts.b[a] = (-((base - lo) // g), (hi - base) // g)
                sigA[a] = self.divide(sub(va, base), g)
                sigB[a] = self.divide(sub(vb, base), g)
                v = Lin(base, ((a, g),))
            else:
                J.facts.b[a] = (lo, hi)
                sigA[a] = va
                sigB[a] = vb
                v = atom(a)
            pairs[k] = v
            order.append(v)
            if blown:
                grown.add(v)
            return v

        for oid, ao in A.mem.items():
            bo = B.mem.get(oid)
            if bo is None:
                if oid.startswith('@'):
                    J.mem[oid] = ao
                continue
            if ao is bo:
                J.mem[oid] = ao
                continue
            o = Obj(oid, ao.size, ao.default, ao.kind, ao.ro, ao.site)
            o.tags = ao.tags
            o.deps = ao.deps | bo.deps
            o.owner = J
            if ao.size != bo.size:
                o.size = gen(ao.size, bo.size, 8)
            if ao.pre != bo.pre or ao.default != bo.default:
                # A fully initialised object counts as one whose prefix is
                # the whole object.
                pa = ao.size if ao.default != 'uninit' \
                    else self.eff_prefix(ao)
                pb = bo.size if bo.default != 'uninit' \
                    else self.eff_prefix(bo)
                if 'uninit' in (ao.default, bo.default):
                    o.pre = gen(pa, pb, 8) if pa != pb else pa
            elif ao.default == 'uninit' and ao.cells.keys() \
                    != bo.cells.keys():
                pa, pb = self.eff_prefix(ao), self.eff_prefix(bo)
                o.pre = gen(pa, pb, 8) if pa != pb else pa
            else:
                pa = pb = o.pre = ao.pre
            if ao.default != bo.default:
                if 'uninit' in (ao.default, bo.default):
                    o.default = 'uninit'
                else:
                    o.default = 'unknown'
            for off, (w, va) in ao.cells.items():
                c = bo.cells.get(off)
                if c is None:
                    vb = self.default_value(bo, va)
                    if vb is None:
                        if bo.default == 'unknown':
                            continue
                        if bo.default == 'zero':
                            vb = 0
                        else:
                            continue
                elif c[0] != w:
                    o.cells[off] = (w, Bad('mixed'))
                    continue
                else:
                    vb = c[1]
                o.cells[off] = (w, self.join_val(fa, fb, va, vb, w, gen))
            for off, (w, vb) in bo.cells.items():
                if off in ao.cells:
                    continue
                va = self.default_value(ao, vb)
                if va is None:
                    if ao.default == 'unknown':
                        continue
                    if ao.default == 'zero':
                        va = 0
                    else:
                        continue
                o.cells[off] = (w, self.join_val(fa, fb, va, vb, w, gen))
            J.mem[oid] = o
        for oid, bo in B.mem.items():
            if oid not in A.mem and oid.startswith('@'):
                J.mem[oid] = bo
        self.last_gen = frozenset(sigA) | wide
        # Bounds of common atoms.
        for a in set(fa.b) | set(fb.b):
            l1, h1 = fa.ab(a)
            l2, h2 = fb.ab(a)
            J.facts.b[a] = (min(l1, l2), max(h1, h2))
        # Constraints: those of either side, rewritten over the cells' new
        # values, that hold in both.
        cons = []
        seen = set()

        def both(x):
            """x over J's atoms holds in both."""
            return (fa.le0(subst(x, sigA)) and fb.le0(subst(x, sigB)))

        def put(c):
            if c.__class__ is int or c in seen:
                return
            seen.add(c)
            if J.facts.bounds(c)[1] <= 0:
                return
            cons.append(c)

        for v, lo, hi in near:
            put(sub(v, hi))
            put(sub(lo, v))
        if self.has_mono:
            self.join_monos(A, B, J, sigA, sigB, order)
        live = self.live_atoms(J, self.curenv.values(), fa.cons)
        if widen <= 30:
            # Affine equalities among the changed cells.
            for x in self.affine(order, self.live_sig(sigA, fa, live),
                                 self.live_sig(sigB, fb, live)):
                put(x)
                put(scale(x, -1))
        if widen >= 3:
            # Plain widening: the constraints of the previous head that
            # still hold, over the new names of its values.
            ren = {}
            for j, v in sigA.items():
                if v.__class__ is Lin and v.c == 0 and len(v.t) == 1 \
                        and v.t[0][1] == 1 and v.t[0][0] not in ren:
                    ren[v.t[0][0]] = atom(j)
            for c in fa.cons:
                cands = [subst(c, {a: v for a, v in ren.items()
                                   if a not in live})]
                c2 = subst(c, ren)
                if c2 != cands[0]:
                    cands.append(c2)
                for x in cands:
                    if x.__class__ is Lin \
                            and all(a in live for a, _ in x.t) \
                            and fb.le0(subst(x, sigB)):
                        put(x)
        if widen >= 5:
            sides = ()
        else:
            sides = ((fa, sigA, fb, sigB), (fb, sigB, fa, sigA))
        for f, sg, g, sh in (sides if widen <= 2 else sides[:1]):
            for c in f.rewritten(sg, live):
                if c not in seen and g.le0(subst(c, sh)):
                    put(c)
        # Difference templates.
        if order and widen <= 2:
            exprs = self.template_exprs(J, A, order)
            pool = order + [e for e in exprs if e not in order]
            for x in order:
                for y in pool:
                    if x == y:
                        continue
                    for c in (sub(x, y), sub(y, x)):
                        if c.__class__ is int or c in seen:
                            continue
                        if J.facts.bounds(c)[1] <= 0:
                            continue
                        depth = 3 if self.watching else 1
                        if fa.le0(subst(c, sigA), depth) \
                                and fb.le0(subst(c, sigB), depth):
                            if self.watching:
                                d = add(c, 1)
                                if fa.le0(subst(d, sigA), 3) \
                                        and fb.le0(subst(d, sigB), 3):
                                    put(d)
                            put(c)
        # Sums and differences of two changed cells, against a third value.
        if self.rich and order and widen <= 2:
            pool = order + [e for e in self.template_exprs(J, A, order)
                            if e not in order]
            for i, x in enumerate(order):
                for k, y in enumerate(pool):
                    if y in order and k <= i:
                        continue
                    for c in (add(x, y), sub(x, y), sub(y, x),
                              scale(add(x, y), -1)):
                        for z in pool[k + 1:] if y in order else pool[k:]:
                            if z == x or z == y:
                                continue
                            for d in (add(c, z), sub(c, z)):
                                if d.__class__ is int or d in seen or len(d.t) < 3 \
                                        or J.facts.bounds(d)[1] <= 0:
                                    continue
                                if fa.le0(subst(d, sigA), 2) \
                                        and fb.le0(subst(d, sigB), 2) \
                                        and not self.implied(J.facts, cons, d):
                                    put(d)
        # Values whose bounds are widened: upper bounds among the others.
        blown = [v for v in order if v in grown]
        if blown:
            for v in blown:
                for y in self.template_exprs(J, A, blown):
                    c = sub(v, y)
                    if c.__class__ is int or c in seen or \
                            J.facts.bounds(y)[1] >= J.facts.bounds(v)[1]:
                        continue
                    if fa.le0(subst(c, sigA)) and fb.le0(subst(c, sigB)):
                        put(c)
        J.facts.cons = []
        for c in cons:
            if c not in J.facts.cons:
                J.facts.cons.append(c)
        self.round_multiples(J.facts)
        J.facts.ne = fa.ne & fb.ne
        if widen < 30:
            try:
                J.facts._propagate()
            except Infeasible:
                pass
        if widen <= 2:
            J.facts.project(live)
        else:
            J.facts.drop(live)
        return J

    @staticmethod
    def implied(f, cons, x):
        f.cons = cons
        r = f.le0(x, 2)
        f.cons = []
        return r

    @staticmethod
    def divide(x, g):
        if x.__class__ is int:
            return x // g
        return Lin(x.c // g, tuple((a, k // g) for a, k in x.t))

    def default_value(self, o, like):
        return None

    def join_val(self, fa, fb, va, vb, w, gen):
        if va == vb and va.__class__ is vb.__class__:
            return va
        ca, cb = va.__class__, vb.__class__
        if ca is Ptr and cb is Ptr and va.obj == vb.obj:
            return Ptr(va.obj, gen(va.off, vb.off, 8))
        if ca is Bad or cb is Bad:
            return va if ca is Bad else vb
        if ca is Cond:
            va = self.fresh_range('bool', 0, 1, self.deps(va))
            ca = Lin
        if cb is Cond:
            vb = self.fresh_range('bool', 0, 1, self.deps(vb))
            cb = Lin
        if ca in (int, Lin) and cb in (int, Lin):
            return gen(va, vb, w)
        return Opaque(self.deps(va) | self.deps(vb),
                      tag=('join', self.at.new('jo', 0, 0)))

    def template_exprs(self, J, A, order):
        """Unchanged symbolic values worth relating to changed cells."""
        r = []
        seen = set(order)
        for o in J.mem.values():
            if o.kind == 'global':
                continue
            if o.size.__class__ is Lin and o.size not in seen:
                seen.add(o.size)
                r.append(o.size)
            for w, v in o.cells.values():
                if v.__class__ is Lin and w >= 4 and v not in seen:
                    seen.add(v)
                    r.append(v)
                elif v.__class__ is Ptr and v.off.__class__ is Lin \
                        and v.off not in seen:
                    seen.add(v.off)
                    r.append(v.off)
        return r[:40]

    def live_sig(self, sig, f, live):
        """The values over live atoms, where equalities allow it."""
        known = {}
        for v in sig.values():
            if v.__class__ is Lin:
                for a, _ in v.t:
                    lo, hi = f.ab(a)
                    if lo == hi:
                        known[a] = lo
        if known:
            sig = {j: subst(v, known) if v.__class__ is Lin else v
                   for j, v in sig.items()}
        dead = {a for v in sig.values() if v.__class__ is Lin
                for a, _ in v.t if a not in live}
        if not dead:
            return sig
        cs = set(f.cons)
        ren = {}
        for c in f.cons:
            if scale(c, -1) not in cs:
                continue
            c = subst(c, ren)
            if c.__class__ is int:
                continue
            for a, k in c.t:
                if a not in live and k in (1, -1):
                    v = sub(atom(a), scale(c, k))
                    ren = {x: subst(y, {a: v}) for x, y in ren.items()}
                    ren[a] = v
                    break
        if not ren:
            return sig
        return {j: subst(v, ren) if v.__class__ is Lin else v
                for j, v in sig.items()}

    def affine(self, order, sigA, sigB):
        """Affine equalities over the new atoms valid in both states."""
        if len(order) < 2:
            return []
        rows = []
        for v in order:
            a = v.t[0][0]
            d = sub(sigA[a], sigB[a])
            m = {}
            if d.__class__ is int:
                m[-1] = d
            else:
                for x, k in d.t:
                    m[x] = k
                if d.c:
                    m[-1] = d.c
            rows.append((m, {a: 1}))
        # Gaussian elimination: find combinations with zero difference.
        from fractions import Fraction
        out = []
        piv = []
        for m, comb in rows:
            m = {k: Fraction(c) for k, c in m.items() if c}
            comb = {k: Fraction(c) for k, c in comb.items()}
            for pk, pm, pc in piv:
                c = m.get(pk)
                if c:
                    q = c / pm[pk]
                    for k, x in pm.items():
                        y = m.get(k, 0) - q * x
                        if y:
                            m[k] = y
                        else:
                            m.pop(k, None)
                    for k, x in pc.items():
                        y = comb.get(k, 0) - q * x
                        if y:
                            comb[k] = y
                        else:
                            comb.pop(k, None)
            if m:
                pk = next(iter(m))
                piv.append((pk, m, comb))
            else:
                den = 1
                for x in comb.values():
                    den = den * x.denominator
                e = 0
                for a, x in comb.items():
                    k = int(x * den)
                    if abs(k) > (1 << 40):
                        break
                    e = add(e, scale(sub(atom(a), sigA[a]), k))
                else:
                    if e.__class__ is Lin:
                        out.append(e)
        return out

    @staticmethod
    def value_atoms(v, out):
        c = v.__class__
        if c is Ptr:
            v = v.off
            c = v.__class__
        if c is Lin:
            for a, _ in v.t:
                out.add(a)
        elif c is Cond:
            for x in (v.a, v.b):
                if x.__class__ is Ptr:
                    x = x.off
                if x.__class__ is Lin:
                    for a, _ in x.t:
                        out.add(a)

    def live_atoms(self, state, extra=(), cons=None):
        live = set()
        if cons is None:
            cons = state.facts.cons
        for o in state.mem.values():
            if o.size.__class__ is Lin:
                self.value_atoms(o.size, live)
            if o.pre.__class__ is Lin:
                self.value_atoms(o.pre, live)
            if o.kind == 'global' and o.ro:
                continue
            for w, v in o.cells.values():
                if v.__class__ is Lin:
                    for a, _ in v.t:
                        live.add(a)
                elif v.__class__ is not int:
                    self.value_atoms(v, live)
        for r in self.regs:
            live |= r
        for v in extra:
            self.value_atoms(v, live)
        # Operands of live products.
        todo = list(live)
        while todo:
            k = self.at.term_of.get(todo.pop())
            if k and k[0] == 'mono':
                for x in k[1:]:
                    if x not in live:
                        live.add(x)
                        todo.append(x)
        # Elements at live indices.
        for c in cons if self.ints else ():
            for a, k in c.t:
                t = self.at.term_of.get(a)
                if t and t[0] == 'in' and t[1] in self.ints \
                        and (t[2].__class__ is int
                             or all(y in live for y, _ in t[2].t)):
                    live.add(a)
        # Multiples: exact quotients of live values.
        cs = None
        for c in cons:
            if len(c.t) < 2 or c.c:
                continue
            for a, k in c.t:
                if a in live:
                    continue
                t = self.at.term_of.get(a)
                if t and t[0] == 'div' and k > 1:
                    x = t[1]
                    if c != add(scale(atom(a), k), scale(x, -1)):
                        continue
                    if cs is None:
                        cs = set(cons)
                    if scale(c, -1) in cs \
                            and all(y in live for y, _ in x.t):
                        live.add(a)
        # Products of live operands.
        for m in self.monos(state.facts):
            if m not in live:
                _, x, y = self.at.term_of[m]
                if x in live and y in live:
                    live.add(m)
        return live

    def monos(self, f):
        """The products something is known about."""
        if not self.has_mono:
            return ()
        t = self.at.term_of
        r = set()
        for a in f.b:
            k = t.get(a)
            if k and k[0] == 'mono':
                r.add(a)
        for c in f.cons:
            for a, _ in c.t:
                k = t.get(a)
                if k and k[0] == 'mono':
                    r.add(a)
        return r

    def join_monos(self, A, B, J, sigA, sigB, order):
        """Products of changed values, as further values to relate."""
        inv = ({}, {})
        for n, sg in ((0, sigA), (1, sigB)):
            for j, v in sg.items():
                if v.__class__ is Lin and len(v.t) == 1 and v.t[0][1] == 1:
                    inv[n].setdefault(v.t[0][0], []).append(j)
        done = set()
        for n, S in ((0, A), (1, B)):
            for m in self.monos(S.facts):
                _, x, y = self.at.term_of[m]
                for jx in inv[n].get(x, [])[:2] + [x]:
                    for jy in inv[n].get(y, [])[:2] + [y]:
                        if jx == x and jy == y:
                            continue
                        k = (min(jx, jy), max(jx, jy))
                        if k in done or len(done) > 12:
                            continue
                        done.add(k)
                        v = self.monomial(J, jx, jy)
                        j = v.t[0][0]
                        sigA[j] = self.mul(A, sigA.get(jx, atom(jx)),
                                           sigA.get(jy, atom(jy)), 64)
                        sigB[j] = self.mul(B, sigB.get(jx, atom(jx)),
                                           sigB.get(jy, atom(jy)), 64)
                        order.append(v)

    def gc(self, state, extra=()):
        """Project the facts onto the atoms something refers to."""
        self.round_multiples(state.facts)
        state.facts.project(self.live_atoms(state, extra))

    def round_multiples(self, f):
        """Tighten constraints between values known to be multiples of the
        same number."""
        mult = None
        cs = None
        for c in f.cons:
            if len(c.t) == 2 and c.c == 0:
                (a, k), (b, q) = c.t
                if abs(k) == 1 and abs(q) > 1:
                    a, b, k, q = b, a, q, k
                if abs(q) == 1 and abs(k) > 1 and k * q < 0:
                    t = self.at.term_of.get(a)
                    if t and t[0] == 'div':
                        if cs is None:
                            cs = set(f.cons)
                        if scale(c, -1) in cs:
                            if mult is None:
                                mult = {}
                            mult[b] = abs(k)
        if not mult:
            return
        for n, c in enumerate(f.cons):
            g = 0
            for a, k in c.t:
                g = gcd(g, k * mult.get(a, 1))
            if g > 1 and c.c % g:
                f.cons[n] = Lin(-((-c.c) // g) * g, c.t)

    # -- merging function results
    def merge_results(self, fn, results):
        if len(results) <= self.max_results:
            return results
        groups = {}
        for s, r in results:
            s = self.rename_heap(s)
            if r.__class__ is int:
                rk = ('neg',) if r < -40 else ('c', r)
            elif r.__class__ is Lin:
                lo, hi = s.facts.bounds(r)
                if lo == hi and lo >= -40:
                    rk = ('c', lo)
                elif hi < 0:
                    rk = ('neg',)
                else:
                    rk = ('sym', lo >= 0)
            elif r.__class__ is Cond:
                rk = ('cond',)
            else:
                rk = ('v', repr(r))
            groups.setdefault((rk, self.partition_key(s)), []).append((s, r))
        out = []
        for (rk, _), g in groups.items():
            if len(g) == 1:
                out.append(g[0])
                continue
            # Keep the returned value in a pseudo object during the join.
            acc = None
            for s, r in g:
                s = s.copy()
                if r.__class__ is Cond:
                    r = self.as_int(s, r, 1, None)
                o = Obj('%ret', 8, 'uninit', 'stack')
                o.owner = s
                if r is not None:
                    o.cells[0] = (8, r)
                s.mem['%ret'] = o
                if acc is None:
                    acc = s
                elif not self.subsumed(s, acc):
                    acc = self.join(acc, s)
            o = acc.mem.pop('%ret')
            out.append((acc, o.cells[0][1] if 0 in o.cells else None))
        return out
