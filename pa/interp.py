"""An abstract interpreter for the Python subset detools is written in.

It never runs the analysed code: it walks its syntax trees over the abstract
values of values.py, forks at conditions the facts do not decide, and solves
loops by fixpoint iteration with a join per partition (state.py)."""

import ast
import builtins
import os
import struct

from sa import dom
from sa.dom import INF, Infeasible, Lin
from sa.ir import AnalysisBroken
from .live import Live
from .state import (Joiner, Obj, Renamer, State, align, canonical, gc, product,
                    merge_facts, partition)
from .values import (EMPTY, FALSE, NONE, TRUE, Acc, B, Code, K, Ref, T, Tup,
                     as_bytes, boolean, is_int, mkbytes, unwrap)

LIMIT = 400000


class Module:
    def __init__(self, name, path, tree):
        self.name = name
        self.path = path
        self.tree = tree
        self.env = {}


class FunctionInfo:
    def __init__(self, module, node, qual, cls=None):
        self.module = module
        self.node = node
        self.qual = qual
        self.cls = cls
        self.defaults = []
        self.kwdefaults = {}
        self.kind = None
        self.closure = None
        self.live = None
        self.generator = any(
            isinstance(x, (ast.Yield, ast.YieldFrom))
            for x in walk_own(node)) if not isinstance(node, ast.Lambda) \
            else False


class ClassInfo:
    def __init__(self, module, node, qual):
        self.module = module
        self.node = node
        self.qual = qual
        self.env = {}
        self.bases = []

    def __repr__(self):
        return self.qual


def walk_own(node):
    """The nodes of a function, without its nested functions."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


class Model:
    """Base of the modelled classes: methods m_<name>(it, st, ref, args, kw)
    and attributes a_<name>(it, st, ref), both returning [(state, value)]."""
    name = 'model'

    def __repr__(self):
        return self.name


class Interp:
    def __init__(self, repo=os.environ.get('DETOOLS_REPO', '/repo')):
        self.repo = repo
        self.at = dom.AtomTable()
        self.modules = {}
        self.functions = {}
        self.classes = {}
        self.externals = {}     # name -> model(it, st, args, kw) -> [(st, v)]
        self.overrides = {}     # qualified name -> the same
        self.methods = {}       # method of a term -> model(it, st, v, args, kw)
        self.attrs = {}         # attribute of a term -> model(it, st, v)
        self.accs = {}
        self.acc_init = {}
        self.phis = {}
        self.loops = {}
        self.alarms = {}
        self.rules = {}
        self.samples = []
        self.visited = set()
        self.used_overrides = set()
        self.counter = 0
        self.steps = 0
        self.handlers = [[]]
        self.catching = 0
        self.yields = []
        self.stack = []
        self.passes = [((), {})]
        self.context = []
        self.constants = {}
        self.line = None
        self.on_store = None
        from . import lib
        lib.install(self)
        self.base = State(self.at)
        self.base.frames = [{}]

    # ---------------------------------------------------------- reporting
    def where(self):
        return self.line or ('?', 0, '?')

    def alarm(self, rule, msg):
        f, ln, fn = self.where()
        key = (rule, f, fn, msg)
        if key not in self.alarms:
            self.alarms[key] = {
                'rule': rule, 'file': f, 'line': ln, 'func': fn, 'msg': msg,
                'path': ['%s:%s %s' % x for x in self.stack[-6:]]}

    def oblige(self, rule, detail=None):
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if detail and len(self.samples) < 12 and self.rules[rule] <= 2:
            f, ln, fn = self.where()
            self.samples.append('%s at %s:%s in %s: %s' % (
                rule, f, ln, fn, detail))

    def check(self, ok, rule, msg=None, detail=None):
        self.oblige(rule, detail)
        if not ok:
            self.alarm(rule, msg or ('not shown: ' + rule))
        return ok

    # ---------------------------------------------------------- atoms
    def fresh(self, name, lo=-INF, hi=INF):
        return dom.atom(self.at.new(name, lo, hi))

    def term(self, op, args, lo=-INF, hi=INF):
        return dom.atom(self.at.term((op,) + tuple(args), lo, hi,
                                     frozenset()))

    def nonce(self, op, args=(), kind='any'):
        self.counter += 1
        return T(op, tuple(args) + (K('n%d' % self.counter),), kind)

    def new(self, st, cls, **f):
        self.counter += 1
        oid = self.counter
        st.heap[oid] = Obj(cls, f)
        return Ref(oid)

    def named(self, st, name, cls, **f):
        st.heap[name] = Obj(cls, f)
        return Ref(name)

    # ---------------------------------------------------------- modules
    def load(self, name):
        """Load module name of the repository; its Module, or None when it is
        not part of the repository."""
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.repo, *name.split('.'))
        for p in (path + '.py', os.path.join(path, '__init__.py')):
            if os.path.exists(p):
                break
        else:
            return None
        try:
            with open(p) as f:
                tree = ast.parse(f.read(), p)
        except SyntaxError as e:
            raise AnalysisBroken('%s: %s' % (p, e))
        m = Module(name, os.path.relpath(p, self.repo), tree)
        self.modules[name] = m
        m.package = name if p.endswith('__init__.py') else \
            name.rpartition('.')[0]
        st = self.base
        saved = st.cur
        st.frames.append(m.env)
        st.cur = len(st.frames) - 1
        m.env['__name__'] = K(name)
        st.env['#module'] = m
        outs = self.block(tree.body, st)
        nxt = [s for k, s, v in outs if k == 'next']
        if len(nxt) != 1:
            raise AnalysisBroken('cannot load ' + name)
        st = nxt[0]
        m.env = st.env
        m.env.pop('#module', None)
        st.frames.pop()
        st.cur = saved
        self.base = st
        return m

    def find(self, qual):
        """The function or class with qualified name qual."""
        mod, _, name = qual.rpartition('.')
        m = self.load(mod)
        if m is None or name not in m.env:
            raise AnalysisBroken('%s not found' % qual)
        return m.env[name]

    # ---------------------------------------------------------- conditions
    def resolve(self, st, v):
        if v.__class__ is T:
            r = st.eqs.get(v)
            if r is not None:
                return r
        elif v.__class__ is Lin:
            c = st.facts.const(v)
            if c is not None and c not in (INF, -INF):
                return int(c)
        return v

    def length(self, st, v):
        """len(v) as an integer value, or None."""
        c = v.__class__
        if c is K:
            return len(v.v) if isinstance(v.v, (str, bytes)) else None
        if c is Tup:
            return len(v.items)
        if c is B:
            n = 0
            for p in v.parts:
                n = dom.add(n, self.length(st, p))
            return n
        if c is Acc:
            return self.term('len', (v,), 0)
        if c is T:
            if v.op == 'slice':
                return dom.sub(v.args[2], v.args[1])
            if v.op == 'SIZE':
                return self.term('len', (v,), 1, 10)
            if v.op == 'repeat' and is_int(v.args[1]):
                n = self.length(st, v.args[0])
                if n == 1:
                    return v.args[1]
            if v.op in ('addb',):
                return self.length(st, v.args[0])
            if v.op == 'data' and is_int(v.args[-1]):
                return v.args[-1]
            if v.op == 'num' and v.kind == 'bytes':
                return struct.calcsize(v.args[0].v)
            if v.op == 'bits':
                return v.args[-1]
            if v.op == 'map' and v.kind == 'seq':
                return self.length(st, v.args[0])
            return self.term('len', (v,), 0)
        if c is Ref and c is not None:
            cls = st.cls(v)
            if hasattr(cls, 'length'):
                return cls.length(self, st, v)
        return None

    def truth(self, st, c):
        """True, False or None (undecided)."""
        c = self.resolve(st, c)
        k = c.__class__
        if k is K:
            return bool(c.v)
        if k is int:
            return c != 0
        if k is Lin:
            if st.facts.known_ne0(c):
                return True
            return False if st.facts.eq0(c) else None
        if k is T:
            if c.op == 'not':
                r = self.truth(st, c.args[0])
                return None if r is None else not r
            if c.op == 'le0':
                x = c.args[0]
                if st.facts.le0(x):
                    return True
                if st.facts.le0(dom.sub(1, x)):
                    return False
                return None
            if c.op == 'eq0':
                x = c.args[0]
                if st.facts.known_ne0(x):
                    return False
                return True if st.facts.eq0(x) else None
            if c.op == 'eq':
                a, b = (self.resolve(st, x) for x in c.args)
                if a == b:
                    return True
                if a.__class__ is K and b.__class__ is K:
                    return False
                if (a, b) in st.neqs or (b, a) in st.neqs:
                    return False
            if c in st.truth:
                return st.truth[c]
            if c.kind in ('bytes', 'seq'):
                n = self.length(st, c)
                if n is not None:
                    return self.truth(st, n)
            return None
        if k is B:
            return self.truth(st, self.length(st, c))
        if k is Tup:
            return bool(c.items)
        if k is Code:
            return True
        if k is Ref:
            cls = st.cls(c)
            if hasattr(cls, 'length'):
                return self.truth(st, cls.length(self, st, c))
            if cls.__class__ is Code and cls.what == 'class':
                if self.lookup(cls, '__len__') is not None \
                        or self.lookup(cls, '__bool__') is not None:
                    return None
            return True
        return None

    def assume(self, st, c, want):
        """Add c == want to st; False when it is infeasible."""
        try:
            return self.assume0(st, c, want)
        except Infeasible:
            return False

    def assume0(self, st, c, want):
        r = self.truth(st, c)
        if r is not None:
            return r == want
        k = c.__class__
        if k is Lin:
            if want:
                st.facts.add_ne0(c)
            else:
                st.facts.add_eq0(c)
            return True
        if k is B:
            return self.assume0(st, self.length(st, c), want)
        if k is Ref:
            cls = st.cls(c)
            if hasattr(cls, 'length'):
                return self.assume0(st, cls.length(self, st, c), want)
            return True
        if k is T:
            if c.op == 'not':
                return self.assume0(st, c.args[0], not want)
            if c.op == 'le0':
                x = c.args[0]
                st.facts.add_le0(x if want else dom.sub(1, x))
                return self.products(st, x)
            if c.op == 'eq0':
                if want:
                    st.facts.add_eq0(c.args[0])
                else:
                    st.facts.add_ne0(c.args[0])
                return True
            if c.op == 'eq':
                a, b = (self.resolve(st, x) for x in c.args)
                if want:
                    if a.__class__ is T and b.__class__ is K:
                        if (a, b) in st.neqs:
                            return False
                        st.eqs[a] = b
                    elif b.__class__ is T and a.__class__ is K:
                        if (b, a) in st.neqs:
                            return False
                        st.eqs[b] = a
                    else:
                        st.truth[c] = True
                        x = unwrap(a)
                        y = unwrap(b)
                        if (getattr(x, 'kind', None) == 'bytes'
                                and y.__class__ is K) or (
                                getattr(y, 'kind', None) == 'bytes'
                                and x.__class__ is K) or (
                                a.__class__ is B and b.__class__ is B):
                            st.facts.add_eq0(dom.sub(self.length(st, a),
                                                     self.length(st, b)))
                else:
                    if a.__class__ is T and b.__class__ is K:
                        st.neqs = st.neqs | {(a, b)}
                    elif b.__class__ is T and a.__class__ is K:
                        st.neqs = st.neqs | {(b, a)}
                    else:
                        st.truth[c] = False
                return True
            if c.kind in ('bytes', 'seq'):
                n = self.length(st, c)
                if n is not None:
                    return self.assume0(st, n, want)
            st.truth[c] = want
            return True
        return True

    def branch(self, st, c):
        """[(state, truth value)]"""
        if c.__class__ is Ref:
            cls = st.cls(c)
            if cls.__class__ is Code and cls.what == 'class':
                f = self.lookup(cls, '__len__') or self.lookup(cls,
                                                               '__bool__')
                if f is not None:
                    out = []
                    for s, v in self.call(st, Code('bound', (f, c)), [], {}):
                        out.extend(self.branch(s, v))
                    return out
        r = self.truth(st, c)
        if r is not None:
            return [(st, r)]
        other = st.copy()
        out = []
        if self.assume(st, c, True):
            out.append((st, True))
        if self.assume(other, c, False):
            out.append((other, False))
        return out

    # ---------------------------------------------------------- exceptions
    def throw(self, st, exc):
        self.handlers[-1].append(('raise', st, exc))

    def throw_name(self, st, name, *args):
        self.throw(st, self.new_exc(st, Code('builtin', name), args))

    def new_exc(self, st, cls, args=()):
        return T('exc', (cls,) + tuple(args))

    def may_throw(self, st):
        """An external call in st may raise anything."""
        if self.catching:
            self.throw(st.copy(), T('exc', (Code('builtin', '?'),)))

    def matches(self, exc, cls):
        """Does handler class cls (a value) catch exc? True, False, None."""
        c = exc.args[0] if exc.__class__ is T and exc.op == 'exc' else None
        if cls.__class__ is Tup:
            rs = [self.matches(exc, x) for x in cls.items]
            if True in rs:
                return True
            return None if None in rs else False
        names = self.mro_names(cls)
        if c is None or (c.what == 'builtin' and c.key == '?'):
            if cls.what == 'builtin' and cls.key in ('Exception',
                                                     'BaseException'):
                return True
            return None
        if names is None:
            return None
        hier = self.hierarchy(c)
        if hier is None:
            return None
        return names in hier

    def mro_names(self, cls):
        if cls.__class__ is Code and cls.what in ('builtin', 'class', 'ext'):
            return cls.key if cls.what != 'class' else cls.key.qual
        return None

    def hierarchy(self, c):
        if c.what == 'builtin':
            b = getattr(builtins, c.key, None)
            if isinstance(b, type):
                return [x.__name__ for x in b.__mro__]
            return None
        if c.what == 'class':
            out = [c.key.qual]
            for b in c.key.bases:
                h = self.hierarchy(b)
                if h is None:
                    return None
                out.extend(h)
            return out
        return None

    # ---------------------------------------------------------- statements
    def block(self, stmts, st):
        """[(kind, state, value)], kind one of next, ret, brk, cont, raise,
        gx."""
        live = [st]
        out = []
        for s in stmts:
            nxt = []
            for x in live:
                for o in self.stmt(s, x):
                    if o[0] == 'next':
                        nxt.append(o[1])
                    else:
                        out.append(o)
            live = self.dedupe(nxt)
            if not live:
                break
        out.extend(('next', x, None) for x in live)
        return out

    def dedupe(self, states):
        if len(states) < 2:
            return states
        out = {}
        for s in states:
            k = canonical(s)
            if k in out:
                merge_facts(out[k], s)
            else:
                out[k] = s
        return list(out.values())

    def mark(self, node):
        m, q = self.context[-1] if self.context else (None, '<module>')
        self.line = (m.path if m else '?', node.lineno, q)

    def stmt(self, node, st):
        self.steps += 1
        if self.steps > LIMIT:
            raise AnalysisBroken('too many steps in the Python analysis')
        self.mark(node)
        self.handlers.append([])
        try:
            f = getattr(self, 's_' + node.__class__.__name__, None)
            if f is None:
                raise AnalysisBroken('%s:%s: unsupported statement %s' % (
                    self.line[0], node.lineno, node.__class__.__name__))
            out = f(node, st)
        finally:
            h = self.handlers.pop()
        return out + h

    def s_Pass(self, node, st):
        return [('next', st, None)]

    def s_Expr(self, node, st):
        return [('next', s, None) for s, _ in self.ev(node.value, st)]

    def s_Return(self, node, st):
        if node.value is None:
            return [('ret', st, NONE)]
        return [('ret', s, v) for s, v in self.ev(node.value, st)]

    def s_Break(self, node, st):
        return [('brk', st, None)]

    def s_Continue(self, node, st):
        return [('cont', st, None)]

    def s_Global(self, node, st):
        raise AnalysisBroken('global statement')

    def s_Nonlocal(self, node, st):
        raise AnalysisBroken('nonlocal statement')

    def s_Assign(self, node, st):
        out = []
        for s, v in self.ev(node.value, st):
            live = [s]
            for t in node.targets:
                live = [y for x in live for y in self.assign(t, x, v)]
            out.extend(('next', x, None) for x in live)
        return out

    def s_AnnAssign(self, node, st):
        if node.value is None:
            return [('next', st, None)]
        return [('next', y, None) for s, v in self.ev(node.value, st)
                for y in self.assign(node.target, s, v)]

    def s_AugAssign(self, node, st):
        out = []
        load = _as_load(node.target)
        for s, a in self.ev(load, st):
            for s2, b in self.ev(node.value, s):
                if a.__class__ is Ref and isinstance(node.op, ast.Add) \
                        and hasattr(s2.cls(a), 'm_extend'):
                    for s3, _ in s2.cls(a).m_extend(self, s2, a, [b], {}):
                        out.append(('next', s3, None))
                    continue
                for s3, v in self.binop(s2, node.op, a, b):
                    out.extend(('next', x, None)
                               for x in self.assign(node.target, s3, v))
        return out

    def s_Delete(self, node, st):
        live = [st]
        for t in node.targets:
            if isinstance(t, ast.Name):
                for s in live:
                    s.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                nxt = []
                for s in live:
                    for s2, o in self.ev(t.value, s):
                        for s3, i in self.index(t.slice, s2):
                            nxt.extend(x for x, _ in self.del_item(s3, o, i))
                live = nxt
            else:
                raise AnalysisBroken('unsupported del')
        return [('next', s, None) for s in live]

    def del_item(self, st, o, i):
        if o.__class__ is Ref and hasattr(st.cls(o), 'delitem'):
            return st.cls(o).delitem(self, st, o, i)
        raise AnalysisBroken('unsupported del of an item')

    def s_If(self, node, st):
        out = []
        for s, c in self.ev(node.test, st):
            for s2, t in self.branch(s, c):
                out.extend(self.block(node.body if t else node.orelse, s2))
        return out

    def s_Assert(self, node, st):
        out = []
        for s, c in self.ev(node.test, st):
            for s2, t in self.branch(s, c):
                if t:
                    out.append(('next', s2, None))
                else:
                    self.throw_name(s2, 'AssertionError')
        return out

    def s_Raise(self, node, st):
        if node.exc is None:
            cur = st.env.get('#exc', T('exc', (Code('builtin', '?'),)))
            self.throw(st, cur)
            return []
        for s, v in self.ev(node.exc, st):
            if v.__class__ is Code:
                v = self.new_exc(s, v)
            if v.__class__ is Ref and s.cls(v).__class__ is Code:
                v = self.new_exc(s, s.cls(v), (v,))
            if not (v.__class__ is T and v.op == 'exc'):
                v = T('exc', (Code('builtin', '?'), v))
            self.throw(s, v)
        return []

    def s_Import(self, node, st):
        for a in node.names:
            top = a.name if a.asname else a.name.partition('.')[0]
            m = self.load(top)
            st = self.base if st is self.base else st
            v = Code('module', top, m) if m else Code('ext', top)
            st.env[a.asname or top] = v
        return [('next', st, None)]

    def s_ImportFrom(self, node, st):
        mod = node.module or ''
        cur = self.context[-1][0] if self.context else st.env.get('#module')
        if node.level:
            base = cur.package.split('.')
            base = base[:len(base) - (node.level - 1)]
            mod = '.'.join(base + ([mod] if mod else []))
        at_load = '#module' in st.env
        if at_load:
            m, st = self.load_from(mod, st)
        else:
            m = self.modules.get(mod) or self.load(mod)
        for a in node.names:
            name = a.asname or a.name
            full = mod + '.' + a.name
            if m is not None and a.name in m.env:
                v = m.env[a.name]
            else:
                if at_load:
                    sub, st = self.load_from(full, st)
                else:
                    sub = self.load(full)
                if sub is not None:
                    v = Code('module', full, sub)
                else:
                    v = Code('ext', full)
            st.env[name] = v
        return [('next', st, None)]

    def load_from(self, name, st):
        """Load a module while st (whose top frame is a loading module) is
        the base state."""
        env = st.env
        self.base = st
        m = self.load(name)
        st = self.base
        st.frames[st.cur] = env
        return m, st

    def s_FunctionDef(self, node, st):
        qual = self.qualify(st, node.name)
        v, st = self.make_function(node, st, qual)
        kind = None
        for d in node.decorator_list:
            if isinstance(d, ast.Name) and d.id in ('property', 'staticmethod',
                                                    'classmethod'):
                kind = d.id
            else:
                raise AnalysisBroken('unsupported decorator on ' + qual)
        v.data.kind = kind
        st.env[node.name] = v
        return [('next', st, None)]

    def qualify(self, st, name):
        c = st.env.get('#class')
        if c is not None:
            return c.qual + '.' + name
        m = st.env.get('#module')
        if m is not None:
            return m.name + '.' + name
        return (self.context[-1][1] if self.context else '?') + '.' + name

    def make_function(self, node, st, qual):
        c = st.env.get('#class')
        m = (c.module if c is not None else st.env.get('#module')
             or self.context[-1][0])
        f = FunctionInfo(m, node, qual, c)
        for d in node.args.defaults:
            r = self.ev(d, st)
            if len(r) != 1:
                raise AnalysisBroken('undecided default value in ' + qual)
            st, v = r[0]
            f.defaults.append(v)
        for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults):
            if d is not None:
                r = self.ev(d, st)
                st, v = r[0]
                f.kwdefaults[a.arg] = v
        if c is None and '#module' not in st.env:
            f.closure = st.cur
        self.functions[qual] = f
        key = qual if f.closure is None else '%s@%d' % (qual, st.cur)
        return Code('fun', key, f), st

    def s_ClassDef(self, node, st):
        m = st.env.get('#module') or self.context[-1][0]
        c = ClassInfo(m, node, self.qualify(st, node.name))
        for b in node.bases:
            r = self.ev(b, st)
            st, v = r[0]
            c.bases.append(v)
        st.frames.append({'#class': c, '#module': None})
        saved = st.cur
        outer = st.frames[saved]
        st.cur = len(st.frames) - 1
        # Class bodies see the names around them.
        body_env = st.frames[st.cur]
        body_env['#outer'] = outer
        outs = [x for x in self.block(node.body, st)]
        nxt = [s for k, s, v in outs if k == 'next']
        if len(nxt) != 1:
            raise AnalysisBroken('cannot analyse class ' + c.qual)
        st = nxt[0]
        env = st.frames.pop()
        st.cur = saved
        c.env = {k: v for k, v in env.items() if not k.startswith('#')}
        v = Code('class', c, c)
        self.classes[c.qual] = v
        st.env[node.name] = v
        return [('next', st, None)]

    def s_Try(self, node, st):
        self.catching += 1
        try:
            outs = self.block(node.body, st)
        finally:
            self.catching -= 1
        res = []
        for o in outs:
            if o[0] == 'next':
                res.extend(self.block(node.orelse, o[1]))
            elif o[0] == 'raise':
                res.extend(self.handle(node.handlers, o[1], o[2]))
            else:
                res.append(o)
        if node.finalbody:
            fin = []
            for o in res:
                for p in self.block(node.finalbody, o[1]):
                    if p[0] == 'next':
                        fin.append((o[0], p[1], o[2]))
                    else:
                        fin.append(p)
            res = fin
        return res

    def handle(self, handlers, st, exc):
        out = []
        for h in handlers:
            if h.type is None:
                r = True
                s = st
            else:
                rs = self.ev(h.type, st)
                s, cls = rs[0]
                r = self.matches(exc, cls)
            if r is False:
                continue
            t = s if r else s.copy()
            saved = t.env.get('#exc')
            t.env['#exc'] = exc
            if h.name:
                t.env[h.name] = exc
            for o in self.block(h.body, t):
                e = o[1].env
                if h.name:
                    e.pop(h.name, None)
                e.pop('#exc', None)
                if saved is not None:
                    e['#exc'] = saved
                out.append(o)
            if r:
                return out
            st = s
        out.append(('raise', st, exc))
        return out

    def s_With(self, node, st):
        return self.with_items(node, 0, st)

    def with_items(self, node, i, st):
        if i == len(node.items):
            return self.block(node.body, st)
        item = node.items[i]
        out = []
        for s, v in self.ev(item.context_expr, st):
            for s1, x in self.enter(s, v):
                live = [s1]
                if item.optional_vars is not None:
                    live = self.assign(item.optional_vars, s1, x)
                for s2 in live:
                    self.catching += 1
                    try:
                        outs = self.with_items(node, i + 1, s2)
                    finally:
                        self.catching -= 1
                    for o in outs:
                        for s3 in self.leave(o[1], v):
                            out.append((o[0], s3, o[2]))
        return out

    def enter(self, st, v):
        if v.__class__ is Ref:
            cls = st.cls(v)
            if hasattr(cls, 'enter'):
                return cls.enter(self, st, v)
            if cls.__class__ is Code:
                f = self.lookup(cls, '__enter__')
                if f is not None:
                    return self.call(st, Code('bound', (f, v)), [], {})
        return [(st, v)]

    def leave(self, st, v):
        if v.__class__ is Ref:
            cls = st.cls(v)
            if hasattr(cls, 'leave'):
                return cls.leave(self, st, v)
            if cls.__class__ is Code:
                f = self.lookup(cls, '__exit__')
                if f is not None:
                    return [s for s, _ in self.call(
                        st, Code('bound', (f, v)), [NONE, NONE, NONE], {})]
        return [st]

    # ---------------------------------------------------------- loops
    def s_While(self, node, st):
        def head(s):
            out = []
            for s1, c in self.ev(node.test, s):
                out.extend(self.branch(s1, c))
            return out

        return self.loop(node, st, head,
                         lambda s: self.block(node.body, s), node.orelse)

    def s_For(self, node, st):
        out = []
        for s, v in self.ev(node.iter, st):
            out.extend(self.iterate(
                node, s, v,
                lambda s2, x: [o for s3 in self.assign(node.target, s2, x)
                               for o in self.block(node.body, s3)],
                node.orelse))
        return out

    def iterate(self, node, st, v, body, orelse=()):
        """Run body(state, element) for the elements of v."""
        v = self.resolve(st, v)
        if v.__class__ is Ref and st.cls(v) is self.GEN:
            return self.iterate_generator(node, st, v, body, orelse)
        if v.__class__ is Ref and st.cls(v).__class__ is Code:
            f = self.lookup(st.cls(v), '__iter__')
            if f is None:
                raise AnalysisBroken('iteration over an object')
            out = []
            for s, x in self.call(st, Code('bound', (f, v)), [], {}):
                out.extend(self.iterate(node, s, x, body, orelse))
            return out
        if v.__class__ is T and v.op == 'enumerate' \
                and v.args[0].__class__ is Ref \
                and st.cls(v.args[0]) is self.GEN:
            var = '#n%d' % id(node)
            st.env[var] = v.args[1]
            cur = st.cur

            def counted(s, x):
                n = s.frames[cur][var]
                s.frames[cur][var] = dom.add(n, 1)
                return body(s, Tup((n, x)))
            return self.iterate_generator(node, st, v.args[0], counted,
                                          orelse)
        items = self.elements(st, v)
        if items is not None:
            live = [st]
            out = []
            done = []
            for x in items:
                nxt = []
                for s in live:
                    for o in body(s, x):
                        if o[0] in ('next', 'cont'):
                            nxt.append(o[1])
                        elif o[0] == 'brk':
                            done.append(o[1])
                        else:
                            out.append(o)
                live = nxt
            for s in live:
                if orelse:
                    out.extend(self.block(orelse, s))
                else:
                    out.append(('next', s, None))
            out.extend(('next', s, None) for s in done)
            return out
        out = []
        for s, n, fn in self.sequence(st, v):
            var = '#i%d' % id(node)
            s.env[var] = 0

            def head(s, n=n, var=var):
                i = s.env[var]
                if n.__class__ is _Range:
                    d = dom.sub(dom.add(n.a, self.mul(s, i, n.k)), n.b)
                else:
                    d = dom.sub(i, n)
                return self.branch(s, T('le0', (dom.add(d, 1),)))

            def inner(s, fn=fn, var=var):
                i = s.env[var]
                s.env[var] = dom.add(i, 1)
                return body(s, fn(s, i))
            out.extend(self.loop(node, s, head, inner, orelse, seq=v,
                                 var=var))
        return out

    def elements(self, st, v):
        """The elements of v when it is a known, short sequence."""
        c = v.__class__
        if c is Tup:
            return list(v.items)
        if c is K and isinstance(v.v, str) and len(v.v) < 40:
            return [K(x) for x in v.v]
        if c is K and isinstance(v.v, bytes) and len(v.v) < 40:
            return list(v.v)
        if c is Ref:
            cls = st.cls(v)
            if hasattr(cls, 'elements'):
                return cls.elements(self, st, v)
        if c is T and v.op == 'range' and all(
                self.resolve(st, x).__class__ is int for x in v.args):
            r = range(*[self.resolve(st, x) for x in v.args])
            if len(r) <= 16:
                return list(r)
        if c is T and v.op in ('enumerate', 'zip', 'reversed', 'map1'):
            if v.op == 'enumerate':
                e = self.elements(st, v.args[0])
                if e is not None and v.args[1].__class__ is int:
                    return [Tup((v.args[1] + i, x)) for i, x in enumerate(e)]
            elif v.op == 'zip':
                es = [self.elements(st, x) for x in v.args]
                if all(e is not None for e in es):
                    return [Tup(x) for x in zip(*es)]
            elif v.op == 'reversed':
                e = self.elements(st, v.args[0])
                if e is not None:
                    return e[::-1]
        return None

    def sequence(self, st, v):
        """[(state, length, element function)] of a sequence of unknown
        length."""
        if v.__class__ is T and v.op == 'range':
            a, b, k = (self.resolve(st, x) for x in v.args)
            out = []
            pos = st
            if k.__class__ is not int:
                neg = st.copy()
                if self.assume(neg, T('le0', (k,)), True):
                    zero = neg.copy()
                    if self.assume(zero, T('eq0', (k,)), True):
                        self.throw_name(zero, 'ValueError')
                    if self.assume(neg, T('le0', (dom.add(k, 1),)), True):
                        raise_ = self.term('rangelen', (a, b, k), 0)
                        out.append((neg, raise_, lambda s, i: dom.add(
                            a, self.mul(s, i, k))))
                if not self.assume(pos, T('le0', (dom.sub(1, k),)), True):
                    return out
            elif k <= 0:
                if k == 0:
                    self.throw_name(st, 'ValueError')
                    return []
                return [(st, self.term('rangelen', (a, b, k), 0),
                         lambda s, i: dom.add(a, self.mul(s, i, k)))]

            if k == 1:
                n = dom.sub(b, a)
                z = pos.copy()
                if self.assume(z, T('le0', (dom.add(n, 1),)), True):
                    out.append((z, 0, lambda s, i: i))
                if self.assume(pos, T('le0', (dom.scale(n, -1),)), True):
                    out.append((pos, n, lambda s, i: dom.add(a, i)))
                return out
            out.append((pos, _Range(a, b, k), lambda s, i: dom.add(
                a, self.mul(s, i, k))))
            return out
        if v.__class__ is T and v.op == 'enumerate':
            return [(s, n, lambda s, i, fn=fn: Tup(
                (dom.add(v.args[1], i), fn(s, i))))
                for s, n, fn in self.sequence(st, v.args[0])]
        if v.__class__ is T and v.op == 'zip':
            seqs = [self.sequence(st, x) for x in v.args]
            n = self.term('len', (v,), 0)
            if any(len(q) != 1 for q in seqs):
                raise AnalysisBroken('zip of undecided sequences')
            if len(set(map(repr, [q[0][1] for q in seqs]))) == 1:
                n = seqs[0][0][1]
            return [(st, n, lambda s, i: Tup([q[0][2](s, i) for q in seqs]))]
        if v.__class__ is Ref:
            cls = st.cls(v)
            if hasattr(cls, 'snapshot'):
                v = cls.snapshot(self, st, v)
            else:
                raise AnalysisBroken('iteration over %s' % (cls,))
        if v.__class__ in (B, T):
            u = unwrap(v)
            n = self.length(st, v)
            return [(st, n, lambda s, i: self.item(s, u, i))]
        if v.__class__ is Code and v.what == 'ext':
            v = T('ext', (K(v.key),))
            return [(st, self.length(st, v),
                     lambda s, i: self.item(s, v, i))]
        raise AnalysisBroken('iteration over %r' % (v,))

    def item(self, st, v, i):
        """The i-th element of symbolic sequence v."""
        if v.__class__ is T and v.op == 'typed':
            return v.args[0](self, st, v, i) if callable(v.args[0]) else \
                T('elem', (v, i))
        if v.__class__ is T and v.kind == 'bytes' or v.__class__ is B:
            return self.term('byte', (v, i), 0, 255)
        if v.__class__ is T and v.kind == 'ints':
            return self.term('elem', (v, i))
        if v.__class__ is T and v.kind == 'bytes-seq':
            return B((T('elem', (v, i), 'bytes'),))
        if v.__class__ is T and v.kind.startswith('('):
            kinds = v.kind[1:-1].split(',')
            return Tup([self.component(v, i, j, k)
                        for j, k in enumerate(kinds)])
        return T('elem', (v, i))

    def component(self, v, i, j, k):
        if k == 'int':
            return self.term('elem', (v, i, j))
        if k == 'bytes':
            return B((T('elem', (v, i, j), 'bytes'),))
        return T('elem', (v, i, j), k or 'any')

    def iterate_generator(self, node, st, v, body, orelse):
        f, args, kw = st.get(v, 'fn'), st.get(v, 'args'), st.get(v, 'kw')
        consumer = st.cur

        def on_yield(s, x):
            gen = s.cur
            s.cur = consumer
            saved = self.yields.pop()
            ctx = self.context.pop()
            try:
                outs = body(s, x)
            finally:
                self.yields.append(saved)
                self.context.append(ctx)
            res = []
            for k, s2, val in outs:
                if k in ('next', 'cont'):
                    s2.cur = gen
                    res.append((s2, NONE))
                elif k == 'brk':
                    self.handlers[-1].append(('gx', s2, ('next', None)))
                else:
                    self.handlers[-1].append(('gx', s2, (k, val)))
            return res
        self.yields.append(on_yield)
        try:
            outs = self.apply(st, f, list(args.items), dict(kw.items), node,
                              raw=True)
        finally:
            self.yields.pop()
        out = []
        for k, s, val in outs:
            if k in ('next', 'ret'):
                if orelse:
                    out.extend(self.block(orelse, s))
                else:
                    out.append(('next', s, None))
            elif k == 'gx':
                out.append((val[0], s, val[1]))
            else:
                out.append((k, s, val))
        return out

    def loop(self, node, st, head, body, orelse=(), seq=None, var=None):
        ctx = tuple(q for _, q in self.context)
        # The n-th execution of the loop in the pass of the loop around it.
        up, counts = self.passes[-1]
        me = (id(node), node.lineno, ctx, st.cur)
        nth = counts[me] = counts.get(me, 0) + 1
        lk = (up, me, nth)
        self.prune(node, st)
        gc(st)
        H = {}
        order = {}
        k0 = partition(st)
        H[k0] = st
        order[k0] = 0
        work = [k0]
        rounds = 0
        cur = st.cur

        def go(k):
            self.passes.append((lk + (order[k],), {}))
            try:
                return go1(k)
            finally:
                self.passes.pop()

        def go1(k):
            s0 = H[k].copy()
            outs, exits, back = [], [], []
            self.handlers.append([])
            try:
                heads = head(s0)
            finally:
                outs.extend(self.handlers.pop())
            for s, enter in heads:
                if not enter:
                    exits.append(('end', s))
                    continue
                self.handlers.append([])
                try:
                    rs = body(s)
                finally:
                    outs.extend(self.handlers.pop())
                for kind, s2, v in rs:
                    if kind in ('next', 'cont'):
                        back.append(s2)
                    elif kind == 'brk':
                        exits.append(('brk', s2))
                    else:
                        outs.append((kind, s2, v))
            return outs, exits, back

        def arrive(b, final):
            self.prune(node, b)
            gc(b)
            k = partition(b)
            if k not in H:
                b = self.age(lk, b)
                H[k] = b
                order[k] = len(order)
                return k, False
            key = lk + (order[k],)
            b = align(self.at, H[k], b)
            J = Joiner(self, key, H[k].copy(), b)
            J.strip()
            ren = self.aging(lk, J.N)
            for x in list(ren.atoms):
                if x in self.phis and self.phis[x]['key'] == key:
                    p = self.phis[x]['path']
                    v = self.at_path(J.N, p)
                    if v is not None and final:
                        self.phis[x]['next'].add(v)
            J.N = ren.state(J.N)
            grown = J.changed
            n = J.join()
            if not J.changed:
                return None
            H[k] = n
            return k, grown

        while True:
            while work:
                rounds += 1
                if rounds > 600:
                    raise AnalysisBroken('%s:%s: loop does not converge' % (
                        self.where()[0], node.lineno))
                k = work.pop(0)
                stale = False
                for b in go(k)[2]:
                    self.prune(node, b)
                    gc(b)
                    if stale and partition(b) == k:
                        # From a state that has got an accumulator since
                        # then; done again from the new one.
                        continue
                    r = arrive(b, False)
                    if r is None:
                        continue
                    r, grown = r
                    if grown and r == k:
                        stale = True
                    if r not in work:
                        work.append(r)
            # The stable pass.
            for key in list(self.accs):
                if key[:len(lk)] == lk:
                    self.accs[key] = set()
            outs = []
            ends = []
            for k in list(H):
                o, e, back = go(k)
                outs.extend(o)
                ends.extend(e)
                for b in back:
                    r = arrive(b, True)
                    if r is not None and r[0] not in work:
                        work.append(r[0])
                if work:
                    break
            if not work:
                break
        self.loops[lk] = {
            'line': self.where()[:1] + (node.lineno,), 'seq': seq,
            'parts': len(H), 'var': var,
            'breaks': any(w == 'brk' for w, _ in ends),
            'exits': [s.copy() for _, s in ends],
            'leaves': any(o[0] in ('ret', 'gx') for o in outs)}
        for w, s in ends:
            if var is not None and w == 'brk':
                pass
            if w == 'end' and orelse:
                outs.extend(self.block(orelse, s))
            else:
                outs.append(('next', s, None))
        del cur
        return outs

    def prune(self, loop, st):
        """Forget the variables that are dead at the head of a loop."""
        f = self.functions.get(self.context[-1][1]) if self.context else None
        if f is None or not isinstance(loop, (ast.For, ast.While)):
            return
        if f.live is None:
            f.live = Live(f.node)
        live = f.live.heads.get(id(loop))
        if live is None:
            return
        for n in list(st.env):
            if not n.startswith('#') and n not in live \
                    and n not in f.live.always:
                del st.env[n]

    def at_path(self, s, path):
        if path[0] == 'v':
            v = s.frames[path[1]].get(path[2])
            rest = path[3:]
        elif path[0] == 'g':
            v = s.ghost.get(path[1])
            rest = path[2:]
        else:
            o = s.heap.get(path[0])
            v = o.f.get(path[1]) if o else None
            rest = path[2:]
        for i in rest:
            if v.__class__ is Tup and i < len(v.items):
                v = v.items[i]
            else:
                return None
        return v

    def aging(self, lk, s):
        """The renaming of the loop's phis to what they were one iteration
        ago."""
        atoms = {}
        for x, p in self.phis.items():
            if p['key'][:len(lk)] == lk:
                chain = [x]
                for n in range(1, 5):
                    k = ('old', x, n)
                    y = self.at.terms.get(k)
                    if y is None:
                        y = self.at.new(self.at.name[x] + "'" * n, -INF, INF)
                        self.at.terms[k] = y
                    chain.append(y)
                for a, b in zip(chain, chain[1:]):
                    atoms[a] = dom.atom(b)
                atoms[chain[-1]] = self.fresh('older')
        terms = {}
        for t in self.phi_terms(lk, s):
            terms[t] = T(t.op + "'", t.args, t.kind)
        return Renamer(self.at, atoms, {}, terms)

    def phi_terms(self, lk, s):
        from .state import live_terms
        pre = repr(lk)[:-1]
        return [t for t in live_terms(s) if t.op.rstrip("'") == 'phi'
                and t.args[0].v.startswith(pre)]

    def age(self, lk, s):
        return self.aging(lk, s).state(s)

    # ---------------------------------------------------------- assignment
    def assign(self, t, st, v):
        """The states after assigning v to target t."""
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t.elts, st, v)
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.ev(t.value, st):
                if o.__class__ is Ref:
                    s.put(o, t.attr, v)
                out.append(s)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, o in self.ev(t.value, st):
                for s2, i in self.index(t.slice, s):
                    out.extend(self.set_item(s2, o, i, v))
            return out
        raise AnalysisBroken('unsupported assignment target')

    def unpack(self, targets, st, v):
        v = self.resolve(st, v)
        star = [i for i, t in enumerate(targets)
                if isinstance(t, ast.Starred)]
        items = None
        if v.__class__ is Tup:
            items = list(v.items)
        else:
            items = self.elements(st, v)
        if items is None:
            if star:
                raise AnalysisBroken('unpacking of an unknown sequence')
            if v.__class__ is Ref and hasattr(st.cls(v), 'snapshot'):
                v = st.cls(v).snapshot(self, st, v)
            self.may_throw(st)
            items = [self.item(st, unwrap(v), i) for i in range(len(targets))]
        if star:
            i = star[0]
            n = len(items) - (len(targets) - 1)
            mid = self.new(st, self.LIST, items=tuple(items[i:i + n]))
            items = items[:i] + [mid] + items[i + n:]
            targets = [t.value if isinstance(t, ast.Starred) else t
                       for t in targets]
        if len(items) != len(targets):
            self.alarm('unpack', 'unpacking %d values into %d targets' % (
                len(items), len(targets)))
            self.throw_name(st, 'ValueError')
            return []
        live = [st]
        for t, x in zip(targets, items):
            live = [y for s in live for y in self.assign(t, s, x)]
        return live

    def set_item(self, st, o, i, v):
        if o.__class__ is Ref and hasattr(st.cls(o), 'setitem'):
            return [s for s, _ in st.cls(o).setitem(self, st, o, i, v)]
        if o.__class__ is Ref and st.cls(o).__class__ is Code:
            f = self.lookup(st.cls(o), '__setitem__')
            if f is not None:
                return [s for s, _ in self.call(
                    st, Code('bound', (f, o)), [i, v], {})]
        return [st]

    # ---------------------------------------------------------- expressions
    def ev(self, node, st):
        f = getattr(self, 'e_' + node.__class__.__name__, None)
        if f is None:
            raise AnalysisBroken('%s: unsupported expression %s' % (
                self.where(), node.__class__.__name__))
        return f(node, st)

    def evs(self, nodes, st):
        """[(state, [values])]"""
        rs = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in rs:
                if isinstance(n, ast.Starred):
                    for s2, v in self.ev(n.value, s):
                        items = self.elements(s2, v)
                        if items is None:
                            nxt.append((s2, vs + [T('star', (self.freeze(
                                s2, v),))]))
                        else:
                            nxt.append((s2, vs + items))
                else:
                    for s2, v in self.ev(n, s):
                        nxt.append((s2, vs + [v]))
            rs = nxt
        return rs

    def freeze(self, st, v):
        if v.__class__ is Ref and hasattr(st.cls(v), 'snapshot'):
            return st.cls(v).snapshot(self, st, v)
        return v

    def e_Constant(self, node, st):
        v = node.value
        if type(v) is int:
            return [(st, v)]
        if isinstance(v, bytes):
            return [(st, mkbytes((K(v),)))]
        return [(st, K(v))]

    def e_Name(self, node, st):
        v = self.name(st, node.id)
        if v is None:
            self.alarm('unbound', "name '%s' is not bound" % node.id)
            self.throw_name(st, 'NameError')
            return []
        return [(st, self.resolve(st, v))]

    def name(self, st, n):
        env = st.env
        if n in env:
            return env[n]
        outer = env.get('#outer')
        while outer is not None:
            if n in outer:
                return outer[n]
            outer = outer.get('#outer')
        f = env.get('#fn')
        while f is not None and f.closure is not None:
            e = st.frames[f.closure] if f.closure < len(st.frames) else {}
            if n in e:
                return e[n]
            f = e.get('#fn')
        if self.context and self.context[-1][0] is not None:
            m = self.context[-1][0]
            if n in m.env:
                return m.env[n]
        if hasattr(builtins, n):
            return Code('builtin', n)
        return None

    def e_Tuple(self, node, st):
        return [(s, Tup(vs)) for s, vs in self.evs(node.elts, st)]

    def e_List(self, node, st):
        return [(s, self.new(s, self.LIST, items=tuple(vs)))
                for s, vs in self.evs(node.elts, st)]

    def e_Set(self, node, st):
        return [(s, Tup(vs)) for s, vs in self.evs(node.elts, st)]

    def e_Dict(self, node, st):
        out = []
        rs = [(st, [])]
        for k, v in zip(node.keys, node.values):
            nxt = []
            for s, items in rs:
                if k is None:
                    for s2, d in self.ev(v, s):
                        more = self.dict_items(s2, d)
                        nxt.append((s2, items + list(more)))
                    continue
                for s2, kv in self.ev(k, s):
                    for s3, vv in self.ev(v, s2):
                        nxt.append((s3, items + [(kv, vv)]))
            rs = nxt
        for s, items in rs:
            d = {}
            for k, v in items:
                d[k] = v
            out.append((s, self.new(s, self.DICT, items=tuple(d.items()))))
        return out

    def dict_items(self, st, d):
        if d.__class__ is Ref and st.cls(d) is self.DICT:
            return st.get(d, 'items')
        raise AnalysisBroken('unknown dictionary')

    def e_Attribute(self, node, st):
        out = []
        for s, o in self.ev(node.value, st):
            out.extend(self.getattr(s, o, node.attr))
        return out

    def lookup(self, cls, name):
        """Attribute of a class (a Code)."""
        c = cls.key
        if name in c.env:
            return c.env[name]
        for b in c.bases:
            if b.__class__ is Code and b.what == 'class':
                r = self.lookup(b, name)
                if r is not None:
                    return r
        return None

    def external_base(self, cls):
        for b in cls.key.bases:
            if b.__class__ is Code and b.what == 'ext':
                return b
            if b.__class__ is Code and b.what == 'class':
                r = self.external_base(b)
                if r is not None:
                    return r
        return None

    def getattr(self, st, o, name):
        o = self.resolve(st, o)
        c = o.__class__
        if c is Ref:
            cls = st.cls(o)
            f = st.heap[o.oid].f
            if cls.__class__ is not Code and hasattr(cls, 'm_' + name):
                return [(st, Code('bound', (K(name), o)))]
            if name in f:
                return [(st, self.resolve(st, f[name]))]
            if name == '__class__':
                return [(st, cls if cls.__class__ is Code else
                         T('class', (K(str(cls)),)))]
            if cls.__class__ is Code:
                v = self.lookup(cls, name)
                if v is None:
                    if self.external_base(cls) is not None:
                        return [(st, T('attr', (o, K(name))))]
                    self.alarm('attribute', "no attribute '%s' in %s" % (
                        name, cls.key.qual))
                    self.throw_name(st, 'AttributeError')
                    return []
                return self.bind(st, v, o, cls)
            if hasattr(cls, 'a_' + name):
                return getattr(cls, 'a_' + name)(self, st, o)
            if hasattr(cls, 'm_' + name):
                return [(st, Code('bound', (K(name), o)))]
            return [(st, T('attr', (o, K(name))))]
        if c is Code:
            if o.what == 'module':
                if name in o.data.env:
                    return [(st, o.data.env[name])]
                m = self.load(o.key + '.' + name)
                if m is not None:
                    return [(st, Code('module', m.name, m))]
                return [(st, Code('ext', o.key + '.' + name))]
            if o.what == 'ext':
                if o.key + '.' + name in self.constants:
                    return [(st, self.constants[o.key + '.' + name])]
                return [(st, Code('ext', o.key + '.' + name))]
            if o.what == 'class':
                v = self.lookup(o, name)
                if v is None:
                    if name == '__name__':
                        return [(st, K(o.key.node.name))]
                    raise AnalysisBroken('no attribute %s' % name)
                if v.__class__ is Code and v.what == 'fun' \
                        and v.data.kind == 'classmethod':
                    return [(st, Code('bound', (v, o)))]
                return [(st, v)]
            if o.what == 'builtin':
                return [(st, Code('builtin', o.key + '.' + name))]
            if o.what == 'super':
                cls, ref = o.key
                for b in cls.key.bases:
                    if b.__class__ is Code and b.what == 'class':
                        v = self.lookup(b, name)
                        if v is not None:
                            return [(st, Code('bound', (v, ref)))]
                return [(st, Code('builtin', 'object.' + name))]
            return [(st, T('attr', (o, K(name))))]
        if c is T and name in self.attrs:
            r = self.attrs[name](self, st, o)
            if r is not None:
                return r
        if c in (T, B, K, Tup) or is_int(o):
            return [(st, Code('bound', (K(name), o)))] \
                if c is not T or name in self.methods or o.kind in (
                    'bytes', 'str') else [(st, T('attr', (o, K(name))))]
        raise AnalysisBroken('attribute %s of %r' % (name, o))

    def bind(self, st, v, o, cls):
        if v.__class__ is Code and v.what == 'fun':
            k = v.data.kind
            if k == 'property':
                return self.call(st, Code('bound', (v, o)), [], {})
            if k == 'staticmethod':
                return [(st, v)]
            if k == 'classmethod':
                return [(st, Code('bound', (v, cls)))]
            return [(st, Code('bound', (v, o)))]
        return [(st, v)]

    def e_Subscript(self, node, st):
        out = []
        for s, o in self.ev(node.value, st):
            for s2, i in self.index(node.slice, s):
                out.extend(self.get_item(s2, o, i))
        return out

    def index(self, node, st):
        if isinstance(node, ast.Slice):
            out = []
            parts = [node.lower, node.upper, node.step]
            rs = [(st, [])]
            for p in parts:
                nxt = []
                for s, vs in rs:
                    if p is None:
                        nxt.append((s, vs + [NONE]))
                    else:
                        nxt.extend((s2, vs + [v]) for s2, v in self.ev(p, s))
                rs = nxt
            for s, vs in rs:
                out.append((s, T('slicer', vs)))
            return out
        return self.ev(node, st)

    def get_item(self, st, o, i):
        o = self.resolve(st, o)
        i = self.resolve(st, i)
        c = o.__class__
        if i.__class__ is T and i.op == 'slicer':
            return self.get_slice(st, o, i)
        if c is Ref:
            cls = st.cls(o)
            if hasattr(cls, 'getitem'):
                return cls.getitem(self, st, o, i)
            if cls.__class__ is Code:
                f = self.lookup(cls, '__getitem__')
                if f is not None:
                    return self.call(st, Code('bound', (f, o)), [i], {})
        if c is Tup and i.__class__ is int:
            if -len(o.items) <= i < len(o.items):
                return [(st, o.items[i])]
            self.throw_name(st, 'IndexError')
            return []
        if c in (B, K, T) and is_int(i):
            n = self.length(st, o)
            if n is not None:
                out = []
                idx = i
                if i.__class__ is int and i < 0:
                    idx = dom.add(n, i)
                for s, ok in self.branch(st, T('le0', (
                        dom.add(dom.sub(idx, n), 1),))):
                    if not ok:
                        self.throw_name(s, 'IndexError')
                        continue
                    for s2, neg in self.branch(s, T('le0', (
                            dom.add(idx, 1),))):
                        if neg:
                            if i.__class__ is not int:
                                out.append((s2, self.item(
                                    s2, unwrap(o), dom.add(n, idx))))
                            else:
                                self.throw_name(s2, 'IndexError')
                        else:
                            out.append((s2, self.byte(s2, o, idx)))
                return out
        self.may_throw(st)
        if c is T:
            return [(st, T('item', (o, i)))]
        return [(st, T('item', (unwrap(o), i)))]

    def byte(self, st, o, i):
        """Element i (within) of o."""
        b = as_bytes(o)
        if b is not None and i.__class__ is int:
            pos = 0
            for p in b.parts:
                n = self.length(st, p)
                if n.__class__ is not int:
                    if pos == i and p is b.parts[0]:
                        return self.item(st, p, 0)
                    break
                if pos <= i < pos + n:
                    if p.__class__ is K:
                        return p.v[i - pos]
                    return self.item(st, p, i - pos)
                pos += n
        if o.__class__ is K and isinstance(o.v, str) and i.__class__ is int:
            return K(o.v[i])
        return self.item(st, unwrap(o), i)

    def get_slice(self, st, o, sl):
        a, b, k = (self.resolve(st, x) for x in sl.args)
        if o.__class__ is Ref and hasattr(st.cls(o), 'getslice'):
            return st.cls(o).getslice(self, st, o, a, b, k)
        if o.__class__ is Tup and all(x == NONE or x.__class__ is int
                                      for x in (a, b, k)):
            f = [None if x == NONE else x for x in (a, b, k)]
            return [(st, Tup(o.items[slice(*f)]))]
        if k == -1 and a == NONE and b == NONE:
            return [(st, B((T('reverse', (unwrap(o),), 'bytes'),)))]
        x = as_bytes(o)
        if x is None or k != NONE or not (
                (a == NONE or is_int(a)) and (b == NONE or is_int(b))):
            kind = o.kind if o.__class__ is T else 'any'
            return [(st, T('slice3', (unwrap(o), a, b, k), kind))]
        return self.cut(st, x, 0 if a == NONE else a,
                        None if b == NONE else b)

    def cut(self, st, x, lo, hi):
        """x[lo:hi] of bytes with Python's clamping: [(state, bytes)]."""
        n = self.length(st, x)
        out = []
        for s, lo2 in self.clamp(st, lo, n):
            if hi is None:
                out.append((s, self.sub(s, x, lo2, n)))
                continue
            for s2, hi2 in self.clamp(s, hi, n):
                for s3, ok in self.branch(s2, T('le0', (
                        dom.sub(lo2, hi2),))):
                    out.append((s3, self.sub(s3, x, lo2, hi2) if ok
                                else EMPTY))
        return out

    def clamp(self, st, i, n):
        out = []
        if i.__class__ is int and i < 0:
            i = dom.add(i, n)
            neg = True
        else:
            neg = False
        for s, big in self.branch(st, T('le0', (dom.sub(n, i),))):
            if big:
                out.append((s, n))
                continue
            for s2, small in self.branch(s, T('le0', (dom.add(i, 1),))):
                if not small:
                    out.append((s2, i))
                elif neg:
                    out.append((s2, 0))
                else:
                    j = dom.add(i, n)
                    for s3, z in self.branch(s2, T('le0', (j,))):
                        out.append((s3, 0 if z else j))
        return out

    def sub(self, st, x, lo, hi):
        """x[lo:hi] where 0 <= lo <= hi <= len(x)."""
        f = st.facts
        if f.eq0(dom.sub(lo, hi)):
            return EMPTY
        parts = list(x.parts)
        # Drop whole leading parts.
        while parts:
            n = self.length(st, parts[0])
            if parts[0].__class__ is not Acc and f.le0(dom.sub(n, lo)):
                parts.pop(0)
                lo, hi = dom.sub(lo, n), dom.sub(hi, n)
            else:
                break
        total = self.length(st, B(tuple(parts)))
        while parts:
            n = self.length(st, parts[-1])
            if f.le0(dom.sub(hi, dom.sub(total, n))):
                parts.pop()
                total = dom.sub(total, n)
            else:
                break
        if not parts:
            return EMPTY
        if f.eq0(lo) and f.eq0(dom.sub(total, hi)):
            return B(tuple(parts))
        if len(parts) == 1:
            p = parts[0]
            if p.__class__ is K and lo.__class__ is int \
                    and hi.__class__ is int:
                return mkbytes((K(p.v[lo:hi]),))
            if p.__class__ is T and p.op == 'slice':
                base, a = p.args[0], p.args[1]
                return B((T('slice', (base, dom.add(a, lo), dom.add(a, hi)),
                            'bytes'),))
            return B((T('slice', (p, lo, hi), 'bytes'),))
        # Cut the first and the last part when the cuts are inside them.
        n0 = self.length(st, parts[0])
        if f.le0(dom.sub(n0, hi)) and f.le0(dom.sub(lo, n0)):
            first = self.sub(st, B((parts[0],)), lo, n0)
            rest = self.sub(st, B(tuple(parts[1:])), 0, dom.sub(hi, n0))
            return mkbytes((first, rest))
        return B((T('slice', (B(tuple(parts)), lo, hi), 'bytes'),))

    def e_IfExp(self, node, st):
        out = []
        for s, c in self.ev(node.test, st):
            for s2, t in self.branch(s, c):
                out.extend(self.ev(node.body if t else node.orelse, s2))
        return out

    def e_BoolOp(self, node, st):
        isand = isinstance(node.op, ast.And)
        rs = [(st, None)]
        done = []
        for i, x in enumerate(node.values):
            nxt = []
            for s, _ in rs:
                for s2, v in self.ev(x, s):
                    if i == len(node.values) - 1:
                        done.append((s2, v))
                        continue
                    for s3, t in self.branch(s2, v):
                        if t == isand:
                            nxt.append((s3, v))
                        else:
                            done.append((s3, boolean(t) if v.__class__ is T
                                         and v.kind == 'bool' else v))
            rs = nxt
        return done

    def e_UnaryOp(self, node, st):
        out = []
        for s, v in self.ev(node.operand, st):
            if isinstance(node.op, ast.Not):
                r = self.truth(s, v)
                if r is not None:
                    out.append((s, boolean(not r)))
                elif v.__class__ is T and v.kind == 'bool':
                    out.append((s, T('not', (v,), 'bool')
                                if v.op != 'not' else v.args[0]))
                else:
                    out.extend((s2, boolean(not t))
                               for s2, t in self.branch(s, v))
            elif isinstance(node.op, ast.USub) and is_int(v):
                out.append((s, dom.scale(v, -1)))
            elif isinstance(node.op, ast.UAdd) and is_int(v):
                out.append((s, v))
            elif isinstance(node.op, ast.Invert) and is_int(v):
                out.append((s, dom.sub(-1, v)))
            elif isinstance(node.op, ast.USub) and v.__class__ is K:
                out.append((s, K(-v.v)))
            else:
                out.append((s, T('neg', (v,))))
        return out

    def mul(self, st, a, b):
        a, b = self.resolve(st, a), self.resolve(st, b)
        if a.__class__ is int:
            return dom.scale(b, a)
        if b.__class__ is int:
            return dom.scale(a, b)
        for x, k in a.t:
            for y, m in b.t:
                p, q = dom.atom(x), dom.atom(y)
                t = product(self.at, p, q)
                l1, h1 = st.facts.bounds(p)
                l2, h2 = st.facts.bounds(q)
                if l1 >= 0 and l2 >= 0:
                    try:
                        st.facts.add_le0(dom.scale(t, -1))
                        if l2 >= 1:
                            st.facts.add_le0(dom.sub(p, t))
                        if l1 >= 1:
                            st.facts.add_le0(dom.sub(q, t))
                    except Infeasible:
                        pass
                if any(x == t.t[0][0] for c in st.facts.cons
                       for x, _ in c.t):
                    continue
                for u, v in ((p, q), (q, p)):
                    if not self.monotone(st, t, u, v):
                        break
        return product(self.at, a, b)

    def monotone(self, st, t, u, v):
        """Compare t = u * v to the other products of v >= 0."""
        f = st.facts
        if f.bounds(v)[0] < 0:
            return True
        for a in {a for c in f.cons for a, _ in c.t}:
            k = self.at.term_of.get(a)
            if k is None or k[0] != 'mul' or v not in k[1:]:
                continue
            w = k[2] if k[1] == v else k[1]
            o = dom.atom(a)
            if o == t:
                continue
            try:
                for sg in (1, -1):
                    x, tx = dom.scale(w, sg), dom.scale(o, sg)
                    self.apart(f, dom.sub(u, x), dom.sub(t, tx), v)
                    self.apart(f, dom.sub(x, u), dom.sub(tx, t), v)
                    if f.eq0(dom.sub(u, x)):
                        f.add_eq0(dom.sub(t, tx))
            except Infeasible:
                return False
        return True

    def apart(self, f, d, td, v):
        """td = d * v: bound the one by the other."""
        positive = f.bounds(v)[0] >= 1
        if positive and f.le0(dom.sub(td, dom.sub(dom.scale(v, 3), 1)), 3):
            # d <= 2
            for k in (-1, 0, 1, 2):
                if f.le0(dom.sub(td, dom.sub(dom.scale(v, k + 1), 1)), 3):
                    f.add_le0(dom.sub(d, k))
                    break
        if f.le0(dom.sub(d, 2), 3):
            for k in (-1, 0, 1, 2):
                if f.le0(dom.sub(d, k), 3):
                    f.add_le0(dom.sub(td, dom.scale(v, k)))
                    break

    def products(self, st, x):
        """Compare the products in x to all others of the state; False when
        it cannot be."""
        for a, _ in x.t:
            k = self.at.term_of.get(a)
            if k is not None and k[0] == 'mul':
                for u, v in (k[1:], k[:0:-1]):
                    if not self.monotone(st, dom.atom(a), u, v):
                        return False
        return True

    def binop(self, st, op, a, b):
        a, b = self.resolve(st, a), self.resolve(st, b)
        if is_int(a) and is_int(b):
            return self.arith(st, op, a, b)
        if isinstance(op, ast.Add):
            x, y = as_bytes(a), as_bytes(b)
            if x is not None and y is not None and (
                    a.__class__ is B or b.__class__ is B
                    or self.kind(a) == 'bytes' or self.kind(b) == 'bytes'):
                return [(st, mkbytes((x, y)))]
            if a.__class__ is K and b.__class__ is K \
                    and type(a.v) is type(b.v):
                return [(st, K(a.v + b.v))]
            if a.__class__ is Tup and b.__class__ is Tup:
                return [(st, Tup(a.items + b.items))]
            if a.__class__ is Ref and b.__class__ is Ref \
                    and st.cls(a) is self.LIST and st.cls(b) is self.LIST:
                return [(st, self.new(st, self.LIST,
                                      items=st.get(a, 'items')
                                      + st.get(b, 'items')))]
        if isinstance(op, ast.Mult):
            if is_int(a):
                a, b = b, a
            if is_int(b):
                x = as_bytes(a)
                if x is not None and (a.__class__ is B
                                      or self.kind(a) == 'bytes'):
                    if b.__class__ is int and len(x.parts) == 1 \
                            and x.parts[0].__class__ is K and b < 4096:
                        return [(st, mkbytes((K(x.parts[0].v * b),)))]
                    return [(st, B((T('repeat', (unwrap(x), b), 'bytes'),)))]
                if a.__class__ is K and isinstance(a.v, str) \
                        and b.__class__ is int:
                    return [(st, K(a.v * b))]
                if a.__class__ is Ref and st.cls(a) is self.LIST:
                    if b.__class__ is int and 0 <= b < 64:
                        return [(st, self.new(
                            st, self.LIST, items=st.get(a, 'items') * b))]
        if isinstance(op, ast.Mod) and a.__class__ is K \
                and isinstance(a.v, str):
            return [(st, T('fmt', (a, b), 'str'))]
        if a.__class__ is K and b.__class__ is K:
            return [(st, T('op', (K(op.__class__.__name__), a, b)))]
        self.may_throw(st)
        kind = 'str' if self.kind(a) == 'str' or self.kind(b) == 'str' \
            else 'any'
        return [(st, T('op', (K(op.__class__.__name__), a, b), kind))]

    def kind(self, v):
        if v.__class__ is T:
            return v.kind
        if v.__class__ is B:
            return 'bytes'
        if v.__class__ is K:
            if isinstance(v.v, bytes):
                return 'bytes'
            if isinstance(v.v, str):
                return 'str'
        return 'any'

    def arith(self, st, op, a, b):
        n = op.__class__.__name__
        f = st.facts
        if n == 'Add':
            return [(st, dom.add(a, b))]
        if n == 'Sub':
            return [(st, dom.sub(a, b))]
        if n == 'Mult':
            return [(st, self.mul(st, a, b))]
        if a.__class__ is int and b.__class__ is int:
            try:
                if n == 'FloorDiv':
                    return [(st, a // b)]
                if n == 'Mod':
                    return [(st, a % b)]
                if n == 'Div':
                    return [(st, K(a / b))]
                if n == 'LShift' and b < 200:
                    return [(st, a << b)]
                if n == 'RShift':
                    return [(st, a >> b)]
                if n == 'BitAnd':
                    return [(st, a & b)]
                if n == 'BitOr':
                    return [(st, a | b)]
                if n == 'BitXor':
                    return [(st, a ^ b)]
                if n == 'Pow' and 0 <= b < 200:
                    return [(st, a ** b)]
            except (ZeroDivisionError, ValueError):
                self.throw_name(st, 'ZeroDivisionError')
                return []
        if n in ('FloorDiv', 'Mod', 'Div'):
            out = []
            for s, z in self.branch(st, T('eq0', (b,))) \
                    if b.__class__ is not int else [(st, b == 0)]:
                if z:
                    self.throw_name(s, 'ZeroDivisionError')
                    continue
                if n == 'Div':
                    out.append((s, T('truediv', (a, b))))
                    continue
                q = self.term('div', (a, b))
                if b.__class__ is int and b > 0:
                    r = dom.sub(a, dom.scale(q, b))
                    try:
                        s.facts.add_le0(dom.scale(r, -1))
                        s.facts.add_le0(dom.sub(r, b - 1))
                    except Infeasible:
                        continue
                    out.append((s, q if n == 'FloorDiv' else r))
                    continue
                r = dom.sub(a, self.mul(s, q, b))
                out.extend((x, q if n == 'FloorDiv' else r)
                           for x in self.division(s, a, b, q, r))
            return out
        lo, hi = f.bounds(a)
        l2, h2 = f.bounds(b)
        if n == 'LShift' and b.__class__ is int:
            return [(st, dom.scale(a, 1 << b))]
        if n == 'RShift' and b.__class__ is int:
            q = self.term('shr', (a, b))
            r = dom.sub(a, dom.scale(q, 1 << b))
            try:
                st.facts.add_le0(dom.scale(r, -1))
                st.facts.add_le0(dom.sub(r, (1 << b) - 1))
            except Infeasible:
                return []
            return [(st, q)]
        if n == 'BitAnd':
            if a.__class__ is int:
                a, b, lo, l2, hi, h2 = b, a, l2, lo, h2, hi
            if b.__class__ is int and b >= 0:
                if (b & (b + 1)) == 0 and lo >= 0 and hi <= b:
                    return [(st, a)]
                return [(st, self.term('and', (a, b), 0, b))]
            if lo >= 0 or l2 >= 0:
                m = min(x for x, y in ((hi, lo), (h2, l2)) if y >= 0)
                return [(st, self.term('and', (a, b), 0, m))]
            return [(st, self.term('and', (a, b)))]
        if n in ('BitOr', 'BitXor'):
            if a == 0:
                return [(st, b)]
            if b == 0:
                return [(st, a)]
            op2 = 'or' if n == 'BitOr' else 'xor'
            if lo >= 0 and l2 >= 0 and hi != INF and h2 != INF:
                m = (1 << max(int(hi).bit_length(), int(h2).bit_length())) - 1
                return [(st, self.term(op2, (a, b), 0, m))]
            return [(st, self.term(op2, (a, b),
                                   0 if lo >= 0 and l2 >= 0 else -INF))]
        return [(st, self.term(n, (a, b)))]

    def division(self, st, a, b, q, r):
        """Facts about the quotient q and the remainder r of a and b."""
        f = st.facts
        if f.bounds(b)[0] < 1:
            return [st]
        try:
            f.add_le0(dom.scale(r, -1))
            f.add_le0(dom.sub(r, dom.sub(b, 1)))
            for k in (0, 1, 2):
                if f.le0(dom.sub(dom.scale(b, k), a)):
                    f.add_le0(dom.sub(k, q))
                if f.le0(dom.sub(dom.add(a, 1), dom.scale(b, k))):
                    f.add_le0(dom.sub(q, k - 1))
        except Infeasible:
            return []
        return [st]

    def e_BinOp(self, node, st):
        out = []
        for s, a in self.ev(node.left, st):
            for s2, b in self.ev(node.right, s):
                out.extend(self.binop(s2, node.op, a, b))
        return out

    def e_Compare(self, node, st):
        rs = []
        for s, a in self.ev(node.left, st):
            rs.append((s, a))
        done = []
        for i, (op, rn) in enumerate(zip(node.ops, node.comparators)):
            nxt = []
            for s, a in rs:
                for s2, b in self.ev(rn, s):
                    for s3, c in self.compare(s2, op, a, b):
                        if i == len(node.ops) - 1:
                            done.append((s3, c))
                            continue
                        for s4, t in self.branch(s3, c):
                            if t:
                                nxt.append((s4, b))
                            else:
                                done.append((s4, FALSE))
            rs = nxt
        return done

    def compare(self, st, op, a, b):
        a, b = self.resolve(st, a), self.resolve(st, b)
        n = op.__class__.__name__
        if n in ('NotEq', 'IsNot', 'NotIn'):
            inv = {'NotEq': ast.Eq, 'IsNot': ast.Is, 'NotIn': ast.In}[n]
            out = []
            for s, c in self.compare(st, inv(), a, b):
                r = self.truth(s, c)
                if r is not None:
                    out.append((s, boolean(not r)))
                else:
                    out.append((s, T('not', (c,), 'bool')))
            return out
        if n in ('Eq', 'Is') and is_int(a) and is_int(b):
            return [(st, self.decided(st, T('eq0', (dom.sub(a, b),),
                                            'bool')))]
        if n in ('Lt', 'LtE', 'Gt', 'GtE') and is_int(a) and is_int(b):
            if n in ('Gt', 'GtE'):
                a, b = b, a
            d = dom.sub(a, b)
            if n in ('Lt', 'Gt'):
                d = dom.add(d, 1)
            return [(st, self.decided(st, T('le0', (d,), 'bool')))]
        if n in ('Eq', 'Is'):
            if n == 'Eq' and a.__class__ is Ref \
                    and st.cls(a).__class__ is Code \
                    and self.lookup(st.cls(a), '__eq__') is not None:
                return self.call(st, Code('bound', (self.lookup(
                    st.cls(a), '__eq__'), a)), [b], {})
            if a == b:
                return [(st, TRUE)]
            known = (K, Code, int)
            if (a.__class__ in known and b.__class__ in known) or \
                    (NONE in (a, b) and (a.__class__ in (B, Ref, Tup, Lin, int)
                                         or b.__class__ in (B, Ref, Tup, Lin,
                                                            int))):
                return [(st, FALSE)]
            if NONE in (a, b):
                o = b if a == NONE else a
                if o.__class__ is T and o.kind in ('bytes', 'str', 'seq',
                                                   'bool', 'object'):
                    return [(st, FALSE)]
            if a.__class__ is B or b.__class__ is B:
                x, y = as_bytes(a), as_bytes(b)
                if x is not None and y is not None:
                    if x == EMPTY or y == EMPTY:
                        return self.compare(st, ast.Eq(),
                                            self.length(st, x),
                                            self.length(st, y))
                    a, b = unwrap(x), unwrap(y)
            if a.__class__ is Tup and b.__class__ is Tup:
                if len(a.items) != len(b.items):
                    return [(st, FALSE)]
            if a.__class__ is Ref and b.__class__ is Ref and n == 'Is':
                return [(st, FALSE)]
            return [(st, self.decided(st, T('eq', (a, b), 'bool')))]
        if n == 'In':
            return self.contains(st, b, a)
        if a.__class__ is K and b.__class__ is K and type(a.v) is type(b.v):
            return [(st, boolean({'Lt': a.v < b.v, 'LtE': a.v <= b.v,
                                  'Gt': a.v > b.v, 'GtE': a.v >= b.v}[n]))]
        self.may_throw(st)
        return [(st, T('cmp', (K(n), a, b), 'bool'))]

    def decided(self, st, c):
        r = self.truth(st, c)
        return c if r is None else boolean(r)

    def contains(self, st, coll, x):
        if coll.__class__ is Ref and hasattr(st.cls(coll), 'contains'):
            return st.cls(coll).contains(self, st, coll, x)
        items = self.elements(st, coll)
        if items is not None and not (coll.__class__ is K):
            out = []
            cur = st
            for y in items:
                nxt = None
                for s, c in self.compare(cur, ast.Eq(), x, y):
                    for s2, t in self.branch(s, c):
                        if t:
                            out.append((s2, TRUE))
                        else:
                            nxt = s2
                if nxt is None:
                    return out
                cur = nxt
            out.append((cur, FALSE))
            return out
        if coll.__class__ is K and x.__class__ is K:
            return [(st, boolean(x.v in coll.v))]
        return [(st, T('in', (x, unwrap(coll)), 'bool'))]

    def e_JoinedStr(self, node, st):
        rs = [(st, [])]
        for v in node.values:
            if isinstance(v, ast.Constant):
                rs = [(s, vs + [K(v.value)]) for s, vs in rs]
            else:
                rs = [(s2, vs + [x]) for s, vs in rs
                      for s2, x in self.ev(v.value, s)]
        return [(s, T('fmt', [self.freeze(s, v) for v in vs], 'str'))
                for s, vs in rs]

    def e_Lambda(self, node, st):
        v, st = self.make_function(node, st, self.qualify(
            st, '<lambda:%d:%d>' % (node.lineno, node.col_offset)))
        return [(st, v)]

    def e_NamedExpr(self, node, st):
        return [(s2, v) for s, v in self.ev(node.value, st)
                for s2 in self.assign(node.target, s, v)]

    def e_Yield(self, node, st):
        if not self.yields:
            raise AnalysisBroken('yield outside of an iteration')
        rs = [(st, NONE)] if node.value is None else self.ev(node.value, st)
        return [x for s, v in rs for x in self.yields[-1](s, v)]

    def e_YieldFrom(self, node, st):
        out = []
        for s, v in self.ev(node.value, st):
            for k, s2, val in self.iterate(
                    node, s, v, lambda s3, x: [
                        ('next', s4, None) for s4, _ in self.yields[-1](s3, x)
                    ]):
                if k == 'next':
                    out.append((s2, NONE))
                else:
                    self.handlers[-1].append((k, s2, val))
        return out

    def e_Starred(self, node, st):
        raise AnalysisBroken('unsupported *')

    def comprehension(self, node, st, add):
        """Run the generators of node, calling add(state, ref) per element;
        [(state, ref)] of the list made."""
        out = []
        lst = self.new(st, self.LIST, items=())
        var = '#c%d_%d' % (node.lineno, node.col_offset)
        st.env[var] = lst

        def run(i, s):
            if i == len(node.generators):
                return [('next', s2, None) for s2 in add(s, s.env[var])]
            g = node.generators[i]
            res = []
            for s1, it in self.ev(g.iter, s):
                def body(s2, x, g=g, i=i):
                    o = []
                    for s3 in self.assign(g.target, s2, x):
                        live = [s3]
                        for c in g.ifs:
                            nxt = []
                            for s4 in live:
                                for s5, v in self.ev(c, s4):
                                    for s6, t in self.branch(s5, v):
                                        if t:
                                            nxt.append(s6)
                                        else:
                                            o.append(('next', s6, None))
                            live = nxt
                        for s4 in live:
                            o.extend(run(i + 1, s4))
                    return o
                res.extend(self.iterate(g, s1, it, body)
                           if hasattr(g, 'lineno') else
                           self.iterate(_at(g, node), s1, it, body))
            return res
        names = set()
        for g in node.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        before = {n: st.env[n] for n in names if n in st.env}
        for k, s, v in run(0, st):
            if k == 'next':
                r = s.env.pop(var)
                for n in names:
                    s.env.pop(n, None)
                s.env.update(before)
                out.append((s, r))
            else:
                self.handlers[-1].append((k, s, v))
        return out

    def e_ListComp(self, node, st):
        def add(s, r):
            out = []
            for s2, v in self.ev(node.elt, s):
                r2 = s2.env['#c%d_%d' % (node.lineno, node.col_offset)]
                s2.put(r2, 'items', s2.get(r2, 'items') + (v,))
                out.append(s2)
            return out
        return self.comprehension(node, st, add)

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, node, st):
        def add(s, r):
            out = []
            for s2, k in self.ev(node.key, s):
                for s3, v in self.ev(node.value, s2):
                    r3 = s3.env['#c%d_%d' % (node.lineno, node.col_offset)]
                    s3.put(r3, 'items', s3.get(r3, 'items')
                           + (Tup((k, v)),))
                    out.append(s3)
            return out
        out = []
        for s, r in self.comprehension(node, st, add):
            items = s.get(r, 'items')
            if all(x.__class__ is Tup for x in items):
                d = {x.items[0]: x.items[1] for x in items}
                out.append((s, self.new(s, self.DICT,
                                        items=tuple(d.items()))))
            else:
                out.append((s, T('dict', (items,), 'dict')))
        return out

    # ---------------------------------------------------------- calls
    def e_Call(self, node, st):
        out = []
        for s, f in self.ev(node.func, st):
            for s2, args in self.evs(node.args, s):
                rs = [(s2, {})]
                for kw in node.keywords:
                    nxt = []
                    for s3, d in rs:
                        for s4, v in self.ev(kw.value, s3):
                            d2 = dict(d)
                            if kw.arg is None:
                                for k, x in self.dict_items(s4, v):
                                    d2[k.v] = x
                            else:
                                d2[kw.arg] = v
                            nxt.append((s4, d2))
                    rs = nxt
                for s3, d in rs:
                    self.mark(node)
                    out.extend(self.call(s3, f, args, d, node))
        return out

    def call(self, st, f, args, kw, node=None):
        """[(state, value)]"""
        f = self.resolve(st, f)
        if f.__class__ is Code:
            w = f.what
            if w == 'fun':
                o = self.overrides.get(f.data.qual)
                if o is not None:
                    self.used_overrides.add(f.data.qual)
                    return o(self, st, args, kw)
                if f.data.generator:
                    return [(st, self.new(st, self.GEN, fn=f, args=Tup(args),
                                          kw=Tup([Tup((K(k), v)) for k, v in
                                                  kw.items()])))]
                return self.apply(st, f, args, kw, node)
            if w == 'bound':
                m, o = f.key
                if m.__class__ is Code:
                    return self.call(st, m, [o] + list(args), kw, node)
                return self.method(st, o, m.v, args, kw)
            if w == 'class':
                return self.instantiate(st, f, args, kw, node)
            if w in ('builtin', 'ext'):
                m = self.externals.get(f.key)
                if m is not None:
                    return m(self, st, args, kw)
                return self.external(st, f.key, args, kw)
        if f.__class__ is Ref:
            cls = st.cls(f)
            if hasattr(cls, 'call'):
                return cls.call(self, st, f, args, kw)
            if cls.__class__ is Code:
                m = self.lookup(cls, '__call__')
                if m is not None:
                    return self.call(st, m, [f] + list(args), kw, node)
        if f.__class__ is T:
            if f.op == 'attr' and f.args[1].v in self.methods:
                return self.methods[f.args[1].v](self, st, f.args[0], args,
                                                 kw)
            return self.external(st, f, args, kw)
        raise AnalysisBroken('%s: call of %r' % (self.where(), f))

    def external(self, st, name, args, kw):
        self.may_throw(st)
        a = [K(name) if isinstance(name, str) else name]
        a += [self.freeze(st, x) for x in args]
        a += [Tup((K(k), self.freeze(st, v))) for k, v in sorted(kw.items())]
        for x in list(args) + list(kw.values()):
            self.escape(st, x)
        return [(st, self.nonce('ext', a))]

    def escape(self, st, v):
        """v is given to unknown code, which may change it."""
        if v.__class__ is Ref and hasattr(st.cls(v), 'escape'):
            st.cls(v).escape(self, st, v)

    def method(self, st, o, name, args, kw):
        if o.__class__ is Ref:
            cls = st.cls(o)
            return getattr(cls, 'm_' + name)(self, st, o, args, kw)
        m = self.methods.get(name)
        if m is not None:
            return m(self, st, o, args, kw)
        return self.external(st, '.' + name, [o] + list(args), kw)

    def instantiate(self, st, cls, args, kw, node):
        o = self.overrides.get(cls.key.qual)
        if o is not None:
            self.used_overrides.add(cls.key.qual)
            return o(self, st, args, kw)
        h = self.hierarchy(cls)
        if h is not None and 'BaseException' in h:
            return [(st, T('exc', (cls,) + tuple(args)))]
        ref = self.new(st, cls)
        init = self.lookup(cls, '__init__')
        if init is None:
            return [(st, ref)]
        st.env['#new%d' % ref.oid] = ref
        out = []
        for s, _ in self.call(st, init, [ref] + list(args), kw, node):
            r = s.env.pop('#new%d' % ref.oid)
            out.append((s, r))
        return out

    def bind_args(self, f, args, kw, qual):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(names) and a.vararg is None:
            return None
        if any(v.__class__ is T and v.op == 'star' for v in args):
            raise AnalysisBroken('call of %s with unknown arguments' % qual)
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = Tup(args[len(names):])
        rest = {}
        for k, v in kw.items():
            if k in env:
                return None
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            elif a.kwarg is not None:
                rest[k] = v
            else:
                return None
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:], f.defaults):
            env.setdefault(n, d)
        for n, d in f.kwdefaults.items():
            env.setdefault(n, d)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                return None
        if a.kwarg is not None:
            env[a.kwarg.arg] = ('kw', rest)
        return env

    def apply(self, st, fv, args, kw, node=None, raw=False):
        f = fv.data
        if raw:
            kw = {k.items[0].v: k.items[1] for k in kw} \
                if not isinstance(kw, dict) else {
                    (k.v if k.__class__ is K else k): v
                    for k, v in kw.items()}
        env = self.bind_args(f, args, kw, f.qual)
        if env is None:
            self.alarm('call', 'the arguments do not fit %s' % f.qual)
            self.throw_name(st, 'TypeError')
            return []
        if len(self.context) > 60:
            raise AnalysisBroken('recursion in ' + f.qual)
        if isinstance(env.get(f.node.args.kwarg.arg
                              if f.node.args.kwarg else None), tuple):
            k = f.node.args.kwarg.arg
            env[k] = self.new(st, self.DICT, items=tuple(
                (K(x), v) for x, v in env[k][1].items()))
        if f.closure is not None or isinstance(f.node, ast.Lambda):
            env['#fn'] = f
        if f.cls is not None:
            env['#cls'] = self.classes.get(f.cls.qual, NONE)
        saved = st.cur
        st.frames.append(env)
        st.cur = len(st.frames) - 1
        depth = st.cur
        self.visited.add(f.qual)
        self.stack.append(self.where())
        self.context.append((f.module, f.qual))
        try:
            if isinstance(f.node, ast.Lambda):
                self.handlers.append([])
                try:
                    outs = [('ret', s, v)
                            for s, v in self.ev(f.node.body, st)]
                finally:
                    outs += self.handlers.pop()
            else:
                outs = self.block(f.node.body, st)
        finally:
            self.context.pop()
            self.line = self.stack.pop()
        res = []
        for k, s, v in outs:
            if k == 'next':
                k, v = 'ret', NONE
            del s.frames[depth:]
            s.cur = saved
            if raw:
                res.append((k, s, v))
            elif k == 'ret':
                res.append((s, v))
            else:
                self.handlers[-1].append((k, s, v))
        return res

    # ---------------------------------------------------------- entry
    def run(self, qual, setup):
        """Analyse function qual: setup(st) -> (args, kwargs).  Returns the
        outcomes [(kind, state, value)]."""
        f = self.find(qual) if isinstance(qual, str) else qual
        st = self.base.copy()
        st.frames = [{}]
        st.cur = 0
        args, kw = setup(st)
        self.handlers = [[]]
        self.context = []
        self.passes = [((), {})]
        self.line = ('?', 0, '?')
        rs = self.call(st, f, args, kw)
        outs = [('ret', s, v) for s, v in rs] + self.handlers[0]
        return outs


class _Range:
    """The length of range(a, b, k) with k > 0, compared by position."""

    def __init__(self, a, b, k):
        self.a, self.b, self.k = a, b, k

    def __repr__(self):
        return 'range(%r, %r, %r)' % (self.a, self.b, self.k)


def _at(g, node):
    g.lineno = node.lineno
    g.col_offset = node.col_offset
    return g


def _as_load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t
