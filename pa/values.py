"""Abstract values of the Python analyser.

Integers are Python ints or linear expressions over atoms (sa.dom.Lin); all
other values are constants, hash-consed symbolic terms, tuples, references to
abstract heap objects and code objects."""

from sa import dom
from sa.dom import Lin


class K:
    """A constant that is not an integer."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return o.__class__ is K and type(o.v) is type(self.v) and o.v == self.v

    def __hash__(self):
        return hash((self.v.__class__.__name__, self.v))

    def __repr__(self):
        return repr(self.v)


class T:
    """A symbolic term."""
    __slots__ = ('op', 'args', 'kind', '_h')

    def __init__(self, op, args=(), kind='any'):
        self.op = op
        self.args = tuple(args)
        self.kind = kind
        self._h = None

    def __eq__(self, o):
        return self is o or (o.__class__ is T and self.op == o.op
                             and hash(self) == hash(o)
                             and self.args == o.args)

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.op, self.args))
        return self._h

    def __repr__(self):
        if not self.args:
            return self.op
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.args)))


class B:
    """Bytes: the concatenation of parts (K of bytes, terms, Acc)."""
    __slots__ = ('parts', '_h')

    def __init__(self, parts):
        self.parts = parts
        self._h = None

    def __eq__(self, o):
        return o.__class__ is B and self.parts == o.parts

    def __hash__(self):
        if self._h is None:
            self._h = hash(('B', self.parts))
        return self._h

    def __repr__(self):
        return '<' + ' + '.join(map(repr, self.parts)) + '>'


class Acc:
    """What a loop has appended so far (see Interp.accs)."""
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return o.__class__ is Acc and self.key == o.key

    def __hash__(self):
        return hash(('Acc', self.key))

    def __repr__(self):
        return 'Acc%x' % (hash(self.key) & 0xfff)


class Tup:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return o.__class__ is Tup and self.items == o.items

    def __hash__(self):
        return hash(('Tup', self.items))

    def __repr__(self):
        return '(%s)' % ', '.join(map(repr, self.items))


class Ref:
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return o.__class__ is Ref and self.oid == o.oid

    def __hash__(self):
        return hash(('Ref', self.oid))

    def __repr__(self):
        return '#%s' % (self.oid,)


class Code:
    """Functions, classes, modules, external names, bound methods."""
    __slots__ = ('what', 'key', 'data')

    def __init__(self, what, key, data=None):
        self.what = what
        self.key = key
        self.data = data

    def __eq__(self, o):
        return (o.__class__ is Code and self.what == o.what
                and self.key == o.key)

    def __hash__(self):
        return hash((self.what, self.key))

    def __repr__(self):
        return '%s:%s' % (self.what, self.key)


NONE = K(None)
TRUE = K(True)
FALSE = K(False)
EMPTY = B(())


def is_int(v):
    return v.__class__ is int or v.__class__ is Lin


def boolean(x):
    return TRUE if x else FALSE


def mkbytes(parts):
    """Normalise a sequence of parts."""
    out = []
    for p in parts:
        if p.__class__ is B:
            q = p.parts
        else:
            q = (p,)
        for x in q:
            if x.__class__ is K:
                if not x.v:
                    continue
                if out and out[-1].__class__ is K:
                    out[-1] = K(bytes(out[-1].v) + bytes(x.v))
                    continue
                x = K(bytes(x.v))
            elif (x.__class__ is T and x.op == 'slice' and out
                  and out[-1].__class__ is T and out[-1].op == 'slice'
                  and out[-1].args[0] == x.args[0]
                  and out[-1].args[2] == x.args[1]):
                y = out.pop()
                x = T('slice', (x.args[0], y.args[1], x.args[2]), 'bytes')
            out.append(x)
    return B(tuple(out))


def as_bytes(v):
    """v as B, or None when it is not bytes."""
    if v.__class__ is B:
        return v
    if v.__class__ is K and isinstance(v.v, (bytes, bytearray)):
        return mkbytes((v,))
    if v.__class__ is T:
        return B((v,))
    return None


def unwrap(v):
    """A B of one part as that part (the value used as term argument)."""
    if v.__class__ is B and len(v.parts) == 1 and v.parts[0].__class__ is not Acc:
        return v.parts[0]
    return v
