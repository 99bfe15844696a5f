"""Evaluates functions of LLVM IR over numbers made of known bits (bits.py)."""

from . import bits
from .bits import BV, Undecided, const
from .ir import UNDEF, AnalysisBroken, layout

LIMIT = 200000


class Machine:
    def __init__(self, module):
        self.m = module
        self.mem = {}
        self.n = 0
        self.steps = 0
        self.ext = {}
        self.visited = set()
        self.globals = {}

    # -- memory
    def new(self):
        self.n += 1
        self.mem[self.n] = {}
        return ('p', self.n, 0)

    def bytes_of(self, size, v):
        if v.__class__ is not BV:
            return [('?',) * 8] * size
        if v.neg:
            if not v.known():
                return [('?',) * 8] * size
            v = const(v.value() % (1 << (8 * size)))
        b = v.bits + (0,) * (8 * size - len(v.bits))
        return [b[8 * i:8 * i + 8] for i in range(size)]

    def store(self, p, size, v):
        if p.__class__ is not tuple or p[0] != 'p':
            raise Undecided('a store to an unknown address')
        _, o, off = p
        mem = self.mem[o]
        for at in list(mem):
            n, old = mem[at]
            if at < off + size and off < at + n and (at, n) != (off, size):
                del mem[at]
                for i, b in enumerate(self.bytes_of(n, old)):
                    if not off <= at + i < off + size:
                        mem[at + i] = (1, BV(b))
        mem[off] = (size, v)

    def load(self, p, size):
        if p.__class__ is not tuple or p[0] != 'p':
            raise Undecided('a load from an unknown address')
        _, o, off = p
        mem = self.mem[o]
        if off in mem and mem[off][0] == size:
            return mem[off][1]
        out = []
        for i in range(size):
            hit = None
            for at, (n, v) in mem.items():
                if at <= off + i < at + n:
                    hit = self.bytes_of(n, v)[off + i - at]
            out.extend(hit or ('?',) * 8)
        return BV(out)

    def address(self, name):
        if name in self.m.functions or name in self.m.declared:
            return ('f', name)
        if name not in self.globals:
            p = self.new()
            self.globals[name] = p
            g = self.m.globals.get(name)
            if g is not None:
                self.init(p, g[0], g[1])
        return self.globals[name]

    def init(self, p, ty, v):
        layout(ty)
        if v == ('zero',) or v == 0 and ty.k != 'int':
            for i in range(min(ty.size, 4096)):
                self.store(('p', p[1], p[2] + i), 1, bits.ZERO)
        elif v.__class__ is int and ty.k == 'int':
            self.store(p, ty.size, const(v))
        elif v.__class__ is tuple and v[0] == 'agg':
            at = 0
            for k, (et, x) in enumerate(v[1]):
                layout(et)
                at = ty.offs[k] if ty.k == 'struct' else k * et.size
                self.init(('p', p[1], p[2] + at), et, x)

    # -- operands
    def val(self, regs, x, ty=None):
        if x.__class__ is int:
            return const(x)
        if x is None:
            return bits.ZERO
        if x is UNDEF:
            return BV(['?'])
        if x[0] == 'r':
            return regs[x[1]]
        if x[0] == 'g':
            return self.address(x[1])
        if x[0] == 'cgep':
            p = self.val(regs, x[1])
            return ('p', p[1], p[2] + x[2])
        if x[0] == 'cast':
            return self.val(regs, x[2])
        if x[0] == 'zero':
            return bits.ZERO
        raise AnalysisBroken('operand %r' % (x,))

    def call(self, name, args):
        if name in self.ext:
            return self.ext[name](self, args)
        fn = self.m.functions.get(name)
        if fn is None:
            return self.intrinsic(name, args)
        self.visited.add(name)
        regs = {p: a for (_, p), a in zip(fn.params, args)}
        blk = fn.order[0]
        prev = None
        while True:
            pend = {}
            for ins in fn.blocks[blk]:
                if ins.op != 'phi':
                    break
                for v, l in ins.x:
                    if l == prev:
                        pend[ins.dst] = self.val(regs, v)
            regs.update(pend)
            for ins in fn.blocks[blk]:
                if ins.op == 'phi':
                    continue
                self.steps += 1
                if self.steps > LIMIT:
                    raise Undecided('it does not end')
                op = ins.op
                if op == 'ret':
                    return self.val(regs, ins.a) if ins.ty.k != 'void' \
                        else None
                if op in ('jmp', 'br', 'switch'):
                    nxt = self.jump(regs, ins)
                    break
                if op == 'unreachable':
                    raise Undecided('unreachable code is reached')
                r = self.step(regs, ins)
                if ins.dst:
                    regs[ins.dst] = r
            prev, blk = blk, nxt

    def truth(self, v):
        return bits.compare('ne', v, bits.ZERO)

    def jump(self, regs, ins):
        if ins.op == 'jmp':
            return ins.a
        v = self.val(regs, ins.a)
        if ins.op == 'br':
            return ins.b if self.truth(v) else ins.x
        w = ins.ty.n
        for k, label in ins.x:
            if bits.compare('eq', bits.unsigned(v, w),
                            const(k % (1 << w))):
                return label
        return ins.b

    def step(self, regs, ins):
        op = ins.op
        if op == 'alloca':
            return self.new()
        if op == 'load':
            return self.load(self.val(regs, ins.a), layout(ins.ty).size)
        if op == 'store':
            self.store(self.val(regs, ins.b), layout(ins.ty).size,
                       self.val(regs, ins.a))
            return None
        if op == 'getelementptr':
            p = self.val(regs, ins.a)
            off = ins.b
            for v, w, sc in ins.x:
                x = bits.signed(self.val(regs, v), w)
                if not x.known():
                    raise Undecided('an unknown index')
                off += x.value() * sc
            if p.__class__ is not tuple or p[0] != 'p':
                raise Undecided('an unknown address')
            return ('p', p[1], p[2] + off)
        if op == 'call':
            if ins.a[0] == 'g':
                name = ins.a[1]
            else:
                f = self.val(regs, ins.a)
                if f.__class__ is not tuple or f[0] != 'f':
                    raise Undecided('a call of an unknown function')
                name = f[1]
            return self.call(name, [self.val(regs, v) for _, v in ins.b])
        if op == 'select':
            return self.val(regs, ins.b if self.truth(self.val(regs, ins.a))
                            else ins.x)
        a = self.val(regs, ins.a)
        if op == 'icmp':
            return self.icmp(ins, a, self.val(regs, ins.b))
        if op in ('ptrtoint', 'inttoptr', 'bitcast'):
            return a
        if op == 'trunc':
            return bits.wrap(self.num(a), ins.ty.n)
        if op == 'zext':
            return bits.unsigned(self.num(a), ins.x.n)
        if op == 'sext':
            return bits.signed(self.num(a), ins.x.n)
        b = self.val(regs, ins.b)
        w = ins.ty.n
        a, b = self.num(a), self.num(b)
        if op == 'add':
            r = bits.add(a, b)
        elif op == 'sub':
            r = bits.add(a, bits.neg(b))
        elif op == 'mul':
            r = bits.mul(a, b)
        elif op in ('shl', 'lshr', 'ashr'):
            if not b.known() or not 0 <= b.value() < w:
                raise Undecided('a shift that is too far')
            if op == 'shl':
                r = bits.shl(a, b.value())
            else:
                x = (bits.unsigned if op == 'lshr' else bits.signed)(a, w)
                r = bits.shr(x, b.value())
        elif op in ('and', 'or', 'xor'):
            if a.known():
                a = bits.unsigned(a, w)
            if b.known():
                b = bits.unsigned(b, w)
            r = bits.logic(op, a, b)
        elif op in ('udiv', 'urem', 'sdiv', 'srem'):
            f = bits.unsigned if op[0] == 'u' else bits.signed
            a, b = f(a, w), f(b, w)
            if a.neg or b.neg:
                raise Undecided('a quotient of negative numbers')
            if not b.known() or not b.bits:
                raise Undecided('an unknown divisor')
            r = (bits.floordiv if op[1:] == 'div' else bits.mod)(a, b)
        else:
            raise AnalysisBroken('instruction %s' % op)
        return bits.wrap(r, w)

    def num(self, v):
        if v.__class__ is not BV:
            raise Undecided('an address is used as a number')
        return v

    def icmp(self, ins, a, b):
        p = ins.x
        if a.__class__ is tuple or b.__class__ is tuple:
            if p in ('eq', 'ne'):
                if a.__class__ is tuple and b.__class__ is tuple:
                    same = a == b
                else:
                    o = b if a.__class__ is tuple else a
                    if not (o.__class__ is BV and not o.bits):
                        raise Undecided('an address is compared')
                    same = False
                return const(int(same == (p == 'eq')))
            raise Undecided('addresses are compared')
        w = 64 if ins.ty.k == 'ptr' else ins.ty.n
        if p in ('eq', 'ne'):
            try:
                r = bits.compare('eq', bits.signed(a, w), bits.signed(b, w))
            except Undecided:
                r = bits.compare('eq', bits.unsigned(a, w),
                                 bits.unsigned(b, w))
            return const(int(r == (p == 'eq')))
        f = bits.unsigned if p[0] == 'u' else bits.signed
        return const(int(bits.compare(p[1:], f(a, w), f(b, w))))

    def intrinsic(self, name, args):
        if name.startswith('llvm.memset'):
            n = args[2]
            if not n.known():
                raise Undecided('memset of unknown size')
            _, o, off = args[0]
            for i in range(n.value()):
                self.store(('p', o, off + i), 1, bits.wrap(args[1], 8))
            return None
        if name.startswith('llvm.memcpy') or name in ('memcpy', 'memmove') \
                or name.startswith('llvm.memmove'):
            n = args[2]
            if not n.known():
                raise Undecided('memcpy of unknown size')
            _, o, off = args[0]
            _, p, at = args[1]
            got = [self.load(('p', p, at + i), 1) for i in range(n.value())]
            for i, v in enumerate(got):
                self.store(('p', o, off + i), 1, v)
            return args[0]
        if name.startswith('llvm.abs'):
            w = int(name.rsplit('.i', 1)[1])
            x = bits.signed(args[0], w)
            return BV(x.bits)
        if name in ('labs', 'llabs', 'abs'):
            return BV(args[0].bits)
        raise AnalysisBroken('call of %s' % name)
