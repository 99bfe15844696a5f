"""Numbers as vectors of bits of which it is known where they come from.

The abstract value of a number is a sign and the bits of its magnitude; each
bit is 0, 1, a name (it is that bit of the input), or '?'. Numbers of C have
a width and are taken modulo two to the power of it.
"""


class Undecided(Exception):
    pass


class BV:
    __slots__ = ('neg', 'bits')

    def __init__(self, bits, neg=False):
        bits = tuple(bits)
        n = len(bits)
        while n and bits[n - 1] == 0:
            n -= 1
        self.bits = bits[:n]
        self.neg = neg and n > 0

    def __eq__(self, o):
        return o.__class__ is BV and self.neg == o.neg \
            and self.bits == o.bits and '?' not in self.bits

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.neg, self.bits))

    def __repr__(self):
        if self.known():
            return str(self.value())
        return '%s<%s>' % ('-' if self.neg else '', ' '.join(
            str(b) for b in reversed(self.bits)))

    def known(self):
        return all(b.__class__ is int for b in self.bits)

    def magnitude(self):
        return sum(1 << i for i, b in enumerate(self.bits) if b == 1)

    def value(self):
        m = self.magnitude()
        return -m if self.neg else m

    def range(self):
        lo = self.magnitude()
        hi = sum(1 << i for i, b in enumerate(self.bits) if b != 0)
        return (-hi, -lo) if self.neg else (lo, hi)


def const(n):
    m = abs(n)
    return BV([(m >> i) & 1 for i in range(m.bit_length())], n < 0)


ZERO = const(0)
ONE = const(1)


def named(name, n, top=()):
    return BV(['%s%d' % (name, i) for i in range(n)] + list(top))


def wrap(x, w):
    """x modulo two to the power of w."""
    return x if w is None else BV(x.bits[:w], x.neg)


def signed(x, w):
    """The representative of x that is the value of a signed number."""
    if w is None:
        return x
    if x.known():
        v = x.value() % (1 << w)
        return const(v - (1 << w) if v >> (w - 1) else v)
    if len(x.bits) < w:
        return x
    raise Undecided('a number may not fit in %d bits' % w)


def unsigned(x, w):
    if w is None or not x.neg:
        return x
    if x.known():
        return const(x.value() % (1 << w))
    raise Undecided('a negative number is used as unsigned')


def bit_and(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1 or a == b:
        return a if a != '?' else '?'
    return '?'


def bit_or(a, b):
    if a == 1 or b == 1:
        return 1
    if a == 0:
        return b
    if b == 0 or a == b:
        return a
    return '?'


def bit_xor(a, b):
    if a.__class__ is int and b.__class__ is int:
        return a ^ b
    if a == 0:
        return b
    if b == 0:
        return a
    if a == b and a != '?':
        return 0
    return '?'


def pairs(a, b):
    n = max(len(a.bits), len(b.bits))
    x = a.bits + (0,) * (n - len(a.bits))
    y = b.bits + (0,) * (n - len(b.bits))
    return zip(x, y)


def power(x):
    """k if x is two to the power of k."""
    if x.known() and not x.neg and x.value() > 0 \
            and x.value() & (x.value() - 1) == 0:
        return x.value().bit_length() - 1
    return None


def neg(x):
    return BV(x.bits, not x.neg)


def add(a, b):
    if a.known() and b.known():
        return const(a.value() + b.value())
    if not a.bits:
        return b
    if not b.bits:
        return a
    if a.neg == b.neg:
        if all(p == 0 or q == 0 for p, q in pairs(a, b)):
            return BV([p if q == 0 else q for p, q in pairs(a, b)], a.neg)
    else:
        for x, y in ((a, b), (b, a)):
            # What is taken away is part of it.
            if all(q == 0 or (p == q and q != '?') for p, q in pairs(x, y)):
                return BV([0 if q != 0 else p for p, q in pairs(x, y)],
                          x.neg)
    n = max(len(a.bits), len(b.bits)) + 1
    if a.neg == b.neg:
        return BV(['?'] * n, a.neg)
    raise Undecided('a sum of unknown numbers')


def mul(a, b):
    if a.known() and b.known():
        return const(a.value() * b.value())
    if a.known():
        a, b = b, a
    if b.known():
        if not b.bits:
            return ZERO
        k = power(const(abs(b.value())))
        if k is not None:
            return BV((0,) * k + a.bits, a.neg != b.neg)
    raise Undecided('a product of unknown numbers')


def shl(a, k):
    return BV((0,) * k + a.bits, a.neg)


def shr(a, k):
    if a.known():
        return const(a.value() >> k)
    if a.neg and any(x != 0 for x in a.bits[:k]):
        raise Undecided('a negative number is shifted right')
    return BV(a.bits[k:], a.neg)


def logic(op, a, b):
    if a.known() and b.known():
        x, y = a.value(), b.value()
        return const(x & y if op == 'and' else x | y if op == 'or' else x ^ y)
    if a.neg or b.neg:
        if op == 'and':
            if a.neg:
                a, b = b, a
            # Complement of a mask of low bits.
            if b.known() and power(const(-b.value())) is not None:
                k = power(const(-b.value()))
                return BV((0,) * k + a.bits[k:])
            if b.known() and not a.neg:
                v = b.value() & ((1 << len(a.bits)) - 1)
                return logic(op, a, const(v))
        raise Undecided('the bits of a negative number')
    f = {'and': bit_and, 'or': bit_or, 'xor': bit_xor}[op]
    return BV([f(p, q) for p, q in pairs(a, b)])


def floordiv(a, b):
    if a.known() and b.known():
        return const(a.value() // b.value())
    k = power(b)
    if k is None or a.neg:
        raise Undecided('a quotient of unknown numbers')
    return shr(a, k)


def mod(a, b):
    if a.known() and b.known():
        return const(a.value() % b.value())
    k = power(b)
    if k is None or a.neg:
        raise Undecided('a remainder of unknown numbers')
    return BV(a.bits[:k])


def compare(op, a, b):
    """op: eq ne lt le gt ge, of exact numbers."""
    if op == 'ne':
        return not compare('eq', a, b)
    if op in ('gt', 'ge'):
        return compare({'gt': 'lt', 'ge': 'le'}[op], b, a)
    l1, h1 = a.range()
    l2, h2 = b.range()
    if op == 'eq':
        if a == b:
            return True
        if h1 < l2 or h2 < l1:
            return False
        if a.neg == b.neg and any(
                p.__class__ is int and q.__class__ is int and p != q
                for p, q in pairs(a, b)):
            return False
    elif op == 'lt':
        if h1 < l2:
            return True
        if l1 >= h2:
            return False
    else:
        if h1 <= l2:
            return True
        if l1 > h2:
            return False
    raise Undecided('%r %s %r' % (a, op, b))
