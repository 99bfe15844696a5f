"""Evaluates Python functions over numbers made of known bits (sa/bits.py).

Values: BV (numbers), None/True/False/str, Seq (bytes, lists and tuples),
Stream (files in memory), Func.
"""

import ast
import os
import struct

from sa import bits
from sa.bits import BV, Undecided, const
from sa.ir import AnalysisBroken

LIMIT = 200000


class Seq:
    def __init__(self, kind, items):
        self.kind = kind
        self.items = list(items)


class Stream:
    def __init__(self, items):
        self.items = list(items)
        self.pos = 0


class Bytes64(BV):
    """A signed number of which the bytes are known."""


class Func:
    def __init__(self, module, node):
        self.module = module
        self.node = node


class Native:
    def __init__(self, name):
        self.name = name


class Raised(Exception):
    def __init__(self, name):
        self.name = name


class Return(Exception):
    pass


class Break(Exception):
    pass


class Continue(Exception):
    pass


class SignedView:
    """The number of which the two's complement representation is bits."""

    def __init__(self, b, w):
        self.b = b
        self.w = w

    def __eq__(self, o):
        return o.__class__ is SignedView and self.b == o.b and self.w == o.w

    def __hash__(self):
        return hash((self.b, self.w))


HIERARCHY = {
    'IndexError': ('LookupError', 'Exception'),
    'KeyError': ('LookupError', 'Exception'),
    'struct.error': ('Exception',),
    'Error': ('Exception',),
    'ValueError': ('Exception',),
    'TypeError': ('Exception',),
    'OverflowError': ('ArithmeticError', 'Exception'),
}

OPS = {'Add': '+', 'Sub': '-', 'Mult': '*'}


class Machine:
    def __init__(self, repo):
        self.repo = repo
        self.mods = {}
        self.steps = 0
        self.visited = set()
        self.over = {}
        self.line = 0

    def load(self, path):
        if path not in self.mods:
            with open(os.path.join(self.repo, path)) as f:
                tree = ast.parse(f.read())
            g = {}
            for n in tree.body:
                if isinstance(n, ast.FunctionDef):
                    g[n.name] = Func(path, n)
                elif isinstance(n, ast.ImportFrom):
                    base = os.path.dirname(path)
                    for _ in range((n.level or 1) - 1):
                        base = os.path.dirname(base)
                    p = None
                    if n.level and n.module:
                        p = os.path.join(base, n.module.replace('.', '/')
                                         + '.py')
                        if not os.path.exists(os.path.join(self.repo, p)):
                            p = None
                    for a in n.names:
                        g[a.asname or a.name] = ('import', p, a.name)
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        g[a.asname or a.name] = Native(a.name)
                elif isinstance(n, ast.Assign) and len(n.targets) == 1 \
                        and isinstance(n.targets[0], ast.Name):
                    g[n.targets[0].id] = ('const', n.value)
            self.mods[path] = g
        return self.mods[path]

    def lookup(self, path, name):
        if name in self.over:
            return Native(name)
        g = self.load(path)
        if name in g:
            v = g[name]
            if v.__class__ is tuple and v[0] == 'import':
                if v[1] is None or v[2] == 'Error':
                    return Native(v[2])
                return self.lookup(v[1], v[2])
            if v.__class__ is tuple and v[0] == 'const':
                return self.ev(v[1], {}, path)
            return v
        return Native(name)

    def function(self, path, name):
        f = self.lookup(path, name)
        if f.__class__ is not Func:
            raise AnalysisBroken('no function %s in %s' % (name, path))
        return f

    # -- calls
    def call(self, f, args, kw=None):
        kw = kw or {}
        if f.__class__ is Func:
            self.visited.add('%s:%s' % (f.module, f.node.name))
            a = f.node.args
            names = [x.arg for x in a.args]
            env = {}
            dn = len(names) - len(a.defaults)
            for i, n in enumerate(names):
                if i < len(args):
                    env[n] = args[i]
                elif n in kw:
                    env[n] = kw[n]
                elif i >= dn:
                    env[n] = self.ev(a.defaults[i - dn], {}, f.module)
                else:
                    raise Raised('TypeError')
            try:
                self.block(f.node.body, env, f.module)
            except Return as r:
                return r.args[0]
            return None
        if f.__class__ is Native:
            return self.native(f.name, args, kw)
        raise AnalysisBroken('call of something unknown')

    def native(self, name, args, kw):
        if name in self.over:
            return self.over[name](*args)
        if name in ('bytearray', 'bytes', 'list', 'tuple', 'iter'):
            kind = 'bytes' if name[0] == 'b' else name
            if not args:
                return Seq(kind, [])
            if args[0].__class__ is Seq:
                return Seq(kind, args[0].items)
            if args[0].__class__ is BV and args[0].known():
                return Seq(kind, [bits.ZERO] * args[0].value())
        if name == 'len' and args[0].__class__ is Seq:
            return const(len(args[0].items))
        if name == 'abs' and args[0].__class__ is BV:
            return BV(args[0].bits)
        if name == 'int' and args[0].__class__ in (BV, SignedView):
            return args[0]
        if name == 'bool':
            return self.truth(args[0])
        if name == 'range':
            v = [a.value() for a in args if a.known()]
            if len(v) == len(args):
                return Seq('list', [const(x) for x in range(*v)])
        if name == 'divmod':
            return Seq('tuple', [bits.floordiv(*args), bits.mod(*args)])
        if name in ('BytesIO', 'io.BytesIO'):
            return Stream(args[0].items if args else [])
        if name in ('min', 'max') and len(args) == 2:
            lt = bits.compare('le', args[0], args[1])
            return args[0] if lt == (name == 'min') else args[1]
        if name in ('struct.pack', 'pack'):
            return self.pack(args)
        if name in ('struct.unpack', 'unpack'):
            return Seq('tuple', self.unpack(args))
        if name in ('int.from_bytes', 'from_bytes'):
            order = args[1] if len(args) > 1 else kw.get('byteorder')
            b = list(args[0].items)
            if order != 'little':
                b.reverse()
            x = BV(sum((tuple(i.bits) + (0,) * (8 - len(i.bits))
                        for i in b), ()))
            if kw.get('signed') is True:
                return self.view(x, 8 * len(b))
            return x
        if name.endswith('Error') or name in ('Exception', 'struct.error'):
            return ('exc', name)
        raise AnalysisBroken('call of %s' % name)

    def view(self, x, w):
        """x, of w bits, as a signed number."""
        if len(x.bits) < w:
            return x
        if x.known():
            return const(x.value() - (1 << w))
        return SignedView(x, w)

    def pack(self, args):
        fmt = args[0]
        order = fmt[0] if fmt[0] in '<>=!@' else '='
        codes = fmt.lstrip('<>=!@')
        out = []
        for c, v in zip(codes, args[1:]):
            n = struct.calcsize(order + c)
            if v.__class__ is SignedView and c.islower() and v.w <= 8 * n:
                if v.w != 8 * n:
                    raise Undecided('a signed number is packed')
                x = v.b
            elif v.__class__ is BV:
                x = v
                lo, hi = v.range()
                if c.isupper():
                    a, b = 0, (1 << (8 * n)) - 1
                else:
                    a, b = -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1
                if hi < a or lo > b:
                    raise Raised('struct.error')
                if lo < a or hi > b:
                    raise Undecided('a number may not fit')
                if x.neg:
                    if not x.known():
                        raise Undecided('a negative number is packed')
                    x = const(x.value() % (1 << (8 * n)))
            else:
                raise AnalysisBroken('struct.pack of something unknown')
            b = x.bits + (0,) * (8 * n - len(x.bits))
            by = [BV(b[8 * i:8 * i + 8]) for i in range(n)]
            if order in '>!':
                by.reverse()
            out.extend(by)
        return Seq('bytes', out)

    def unpack(self, args):
        fmt, data = args
        order = fmt[0] if fmt[0] in '<>=!@' else '='
        codes = fmt.lstrip('<>=!@')
        if data.__class__ is not Seq:
            raise AnalysisBroken('struct.unpack of something unknown')
        if struct.calcsize(fmt) != len(data.items):
            raise Raised('struct.error')
        out = []
        pos = 0
        for c in codes:
            n = struct.calcsize(order + c)
            by = data.items[pos:pos + n]
            pos += n
            if order in '>!':
                by = by[::-1]
            x = BV(sum((tuple(i.bits) + (0,) * (8 - len(i.bits))
                        for i in by), ()))
            out.append(x if c.isupper() else self.view(x, 8 * n))
        return out

    # -- statements
    def block(self, body, env, m):
        for n in body:
            self.stmt(n, env, m)

    def tick(self, n):
        self.steps += 1
        self.line = getattr(n, 'lineno', self.line)
        if self.steps > LIMIT:
            raise Undecided('it does not end')

    def stmt(self, n, env, m):
        self.tick(n)
        k = n.__class__.__name__
        if k == 'Expr':
            self.ev(n.value, env, m)
        elif k == 'Assign':
            v = self.ev(n.value, env, m)
            for t in n.targets:
                self.assign(t, v, env, m)
        elif k == 'AnnAssign':
            self.assign(n.target, self.ev(n.value, env, m), env, m)
        elif k == 'AugAssign':
            load = ast.copy_location(self.as_load(n.target), n.target)
            v = self.binop(n.op, self.ev(load, env, m),
                           self.ev(n.value, env, m))
            self.assign(n.target, v, env, m)
        elif k == 'If':
            self.block(n.body if self.truth(self.ev(n.test, env, m))
                       else n.orelse, env, m)
        elif k == 'While':
            while self.truth(self.ev(n.test, env, m)):
                try:
                    self.block(n.body, env, m)
                except Break:
                    return
                except Continue:
                    pass
                self.tick(n)
            self.block(n.orelse, env, m)
        elif k == 'For':
            it = self.ev(n.iter, env, m)
            if it.__class__ is not Seq:
                raise AnalysisBroken('a loop over something unknown')
            for x in list(it.items):
                self.assign(n.target, x, env, m)
                try:
                    self.block(n.body, env, m)
                except Break:
                    return
                except Continue:
                    pass
            self.block(n.orelse, env, m)
        elif k == 'Return':
            raise Return(None if n.value is None
                         else self.ev(n.value, env, m))
        elif k == 'Break':
            raise Break()
        elif k == 'Continue':
            raise Continue()
        elif k == 'Pass':
            pass
        elif k == 'Assert':
            if not self.truth(self.ev(n.test, env, m)):
                raise Raised('AssertionError')
        elif k == 'Raise':
            e = self.ev(n.exc, env, m) if n.exc is not None else None
            if e.__class__ is tuple and e[0] == 'exc':
                raise Raised(e[1])
            raise Raised(e.name if e.__class__ is Native else 'Exception')
        elif k == 'Try':
            try:
                try:
                    self.block(n.body, env, m)
                except Raised as r:
                    for h in n.handlers:
                        if self.catches(h.type, r.name):
                            if h.name:
                                env[h.name] = ('exc', r.name)
                            self.block(h.body, env, m)
                            break
                    else:
                        raise
                else:
                    self.block(n.orelse, env, m)
            finally:
                self.block(n.finalbody, env, m)
        elif k == 'FunctionDef':
            env[n.name] = Func(m, n)
        else:
            raise AnalysisBroken('statement %s' % k)

    def catches(self, t, name):
        if t is None:
            return True
        names = [ast.unparse(x) for x in t.elts] \
            if isinstance(t, ast.Tuple) else [ast.unparse(t)]
        return any(x == name or x in HIERARCHY.get(name, ('Exception',))
                   for x in names)

    def as_load(self, t):
        x = ast.parse(ast.unparse(t), mode='eval').body
        return x

    def assign(self, t, v, env, m):
        k = t.__class__.__name__
        if k == 'Name':
            env[t.id] = v
        elif k in ('Tuple', 'List'):
            if v.__class__ is not Seq or len(v.items) != len(t.elts):
                raise AnalysisBroken('an unpacking of something unknown')
            for x, y in zip(t.elts, v.items):
                self.assign(x, y, env, m)
        elif k == 'Subscript':
            s = self.ev(t.value, env, m)
            i = self.ev(t.slice, env, m)
            if s.__class__ is not Seq or not i.known():
                raise AnalysisBroken('an assignment to something unknown')
            try:
                s.items[i.value()] = v
            except IndexError:
                raise Raised('IndexError')
            if s.kind == 'bytes' and len(v.bits) > 8:
                raise Raised('ValueError')
        else:
            raise AnalysisBroken('assignment to %s' % k)

    def truth(self, v):
        if v.__class__ is BV:
            return bits.compare('ne', v, bits.ZERO)
        if v is None or v is True or v is False:
            return bool(v)
        if v.__class__ is Seq:
            return bool(v.items)
        if isinstance(v, (str, bytes)):
            return bool(v)
        raise AnalysisBroken('truth of something unknown')

    # -- expressions
    def ev(self, n, env, m):
        self.tick(n)
        k = n.__class__.__name__
        if k == 'Constant':
            if n.value is True or n.value is False or n.value is None:
                return n.value
            if isinstance(n.value, int):
                return const(n.value)
            if isinstance(n.value, bytes):
                return Seq('bytes', [const(b) for b in n.value])
            return n.value
        if k == 'Name':
            if n.id in env:
                return env[n.id]
            return self.lookup(m, n.id)
        if k == 'Attribute':
            v = self.ev(n.value, env, m)
            if v.__class__ is Native:
                return Native(v.name + '.' + n.attr)
            return ('method', v, n.attr)
        if k == 'BinOp':
            return self.binop(n.op, self.ev(n.left, env, m),
                              self.ev(n.right, env, m))
        if k == 'UnaryOp':
            v = self.ev(n.operand, env, m)
            o = n.op.__class__.__name__
            if o == 'Not':
                return not self.truth(v)
            if v.__class__ is not BV:
                raise Undecided('the sign of something unknown')
            if o == 'USub':
                return bits.neg(v)
            if o == 'UAdd':
                return v
            return bits.add(bits.neg(v), const(-1)) if v.known() \
                else self.unknown()
        if k == 'BoolOp':
            v = None
            for x in n.values:
                v = self.ev(x, env, m)
                t = self.truth(v)
                if t != isinstance(n.op, ast.And):
                    return v
            return v
        if k == 'Compare':
            a = self.ev(n.left, env, m)
            for op, r in zip(n.ops, n.comparators):
                b = self.ev(r, env, m)
                if not self.cmp(op, a, b):
                    return False
                a = b
            return True
        if k == 'IfExp':
            return self.ev(n.body if self.truth(self.ev(n.test, env, m))
                           else n.orelse, env, m)
        if k in ('Tuple', 'List'):
            return Seq(k.lower(), [self.ev(x, env, m) for x in n.elts])
        if k == 'Subscript':
            s = self.ev(n.value, env, m)
            if s.__class__ is not Seq:
                raise AnalysisBroken('an index into something unknown')
            if isinstance(n.slice, ast.Slice):
                if n.slice.step is not None:
                    raise AnalysisBroken('a slice with a step')
                lo = self.ev(n.slice.lower, env, m).value() \
                    if n.slice.lower else None
                hi = self.ev(n.slice.upper, env, m).value() \
                    if n.slice.upper else None
                return Seq(s.kind, s.items[lo:hi])
            i = self.ev(n.slice, env, m)
            if not i.known():
                raise Undecided('an unknown index')
            try:
                return s.items[i.value()]
            except IndexError:
                raise Raised('IndexError')
        if k == 'Call':
            f = self.ev(n.func, env, m)
            args = [self.ev(a, env, m) for a in n.args]
            kw = {a.arg: self.ev(a.value, env, m) for a in n.keywords}
            if f.__class__ is tuple and f[0] == 'method':
                return self.method(f[1], f[2], args, kw)
            return self.call(f, args, kw)
        raise AnalysisBroken('expression %s' % k)

    def unknown(self):
        raise Undecided('a number that is not known')

    def method(self, v, name, args, kw):
        if v.__class__ is Stream and name == 'read':
            n = args[0].value() if args and args[0] is not None \
                else len(v.items)
            r = v.items[v.pos:v.pos + n]
            v.pos += len(r)
            return Seq('bytes', r)
        if v.__class__ is Stream and name == 'write':
            v.items.extend(args[0].items)
            return const(len(args[0].items))
        if v.__class__ is Stream and name == 'getvalue':
            return Seq('bytes', v.items)
        if v.__class__ is Stream and name == 'tell':
            return const(v.pos)
        if v.__class__ is Seq:
            if name == 'append':
                if v.kind == 'bytes' and (args[0].neg
                                          or len(args[0].bits) > 8):
                    raise Raised('ValueError')
                v.items.append(args[0])
                return None
            if name in ('extend', '__iadd__'):
                v.items.extend(args[0].items)
                return None
            if name == 'join':
                return Seq('bytes', sum((x.items for x in args[0].items),
                                        []))
        if v.__class__ is BV and name == 'bit_length':
            lo, hi = v.range()
            a, b = abs(lo).bit_length(), abs(hi).bit_length()
            if a == b:
                return const(a)
            raise Undecided('the length of an unknown number')
        if v.__class__ is BV and name == 'to_bytes':
            n = args[0].value()
            order = args[1] if len(args) > 1 else kw.get('byteorder', 'big')
            if v.neg:
                raise Undecided('the bytes of a negative number')
            if len(v.bits) > 8 * n:
                raise Raised('OverflowError')
            b = v.bits + (0,) * (8 * n - len(v.bits))
            by = [BV(b[8 * i:8 * i + 8]) for i in range(n)]
            return Seq('bytes', by if order == 'little' else by[::-1])
        if isinstance(v, str) and name == 'format':
            return v
        raise AnalysisBroken('method %s' % name)

    def binop(self, op, a, b):
        o = op.__class__.__name__
        if isinstance(a, bool):
            a = const(int(a))
        if isinstance(b, bool):
            b = const(int(b))
        if a.__class__ is Seq:
            if o == 'Add' and b.__class__ is Seq:
                return Seq(a.kind, a.items + b.items)
            if o == 'Mult' and b.__class__ is BV and b.known():
                return Seq(a.kind, a.items * b.value())
        if a.__class__ is not BV or b.__class__ is not BV:
            if isinstance(a, (float, str)) or isinstance(b, (float, str)):
                return 0.0 if not isinstance(a, str) else a
            raise Undecided('%s of something unknown' % o)
        if o == 'Add':
            return bits.add(a, b)
        if o == 'Sub':
            return bits.add(a, bits.neg(b))
        if o == 'Mult':
            return bits.mul(a, b)
        if o in ('LShift', 'RShift'):
            if not b.known() or b.neg:
                raise Undecided('an unknown shift')
            return (bits.shl if o == 'LShift' else bits.shr)(a, b.value())
        if o in ('BitAnd', 'BitOr', 'BitXor'):
            return bits.logic(o[3:].lower(), a, b)
        if o == 'FloorDiv':
            return bits.floordiv(a, b)
        if o == 'Mod':
            return bits.mod(a, b)
        if o == 'Div':
            return 0.0
        if o == 'Pow' and a.known() and b.known() and not b.neg:
            return const(a.value() ** b.value())
        raise AnalysisBroken('operator %s' % o)

    def cmp(self, op, a, b):
        o = op.__class__.__name__
        if o in ('Is', 'IsNot'):
            return (a is b) == (o == 'Is')
        if isinstance(a, bool):
            a = const(int(a))
        if isinstance(b, bool):
            b = const(int(b))
        if a.__class__ is BV and b.__class__ is BV:
            return bits.compare({'Eq': 'eq', 'NotEq': 'ne', 'Lt': 'lt',
                                 'LtE': 'le', 'Gt': 'gt', 'GtE': 'ge'}[o],
                                a, b)
        if a.__class__ is Seq and b.__class__ is Seq and o in ('Eq',
                                                               'NotEq'):
            if len(a.items) != len(b.items):
                return o == 'NotEq'
            same = all(bits.compare('eq', x, y)
                       for x, y in zip(a.items, b.items))
            return same == (o == 'Eq')
        if isinstance(a, str) and isinstance(b, str):
            return (a == b) == (o == 'Eq')
        raise Undecided('a comparison of something unknown')
