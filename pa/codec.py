"""How numbers in patches are written and read.

Each function is evaluated once for each sign and length (in bits when
writing, in bytes when reading) of a number; all other bits are names, so the
result is for all numbers.
"""

import os

from sa import bits, bitir
from sa.bits import BV, Undecided, const, named
from sa.ir import UNDEF, AnalysisBroken, compile_ir
from tasks import HERE, REPO, NOFILE, only
from .bitpy import Machine, Raised, Seq, SignedView, Stream

RULE = 'rule:number'
PYTHON = '/usr/include/python3.12'


class Report:
    def __init__(self):
        self.alarms = {}
        self.rules = {}
        self.samples = []
        self.visited = set()
        self.steps = 0
        self.loops = ()

    def check(self, ok, where, msg, detail=None):
        rule, f, fn, line = where
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if detail and self.rules[rule] % 40 == 1 and len(self.samples) < 12:
            self.samples.append('%s in %s: %s' % (rule, fn, detail))
        if not ok and (f, fn, msg) not in self.alarms:
            self.alarms[(f, fn, msg)] = {
                'rule': rule, 'file': f, 'line': line, 'func': fn,
                'msg': msg, 'path': ['%s:%s %s' % (f, line, fn)]}


def interp():
    return Report()


# ---------------------------------------------------------- the encoding
def number(n, sign):
    """All numbers of n bits with the sign given."""
    return BV(['b%d' % i for i in range(n - 1)] + [1] if n else [], sign)


def encoded(x, first=6):
    """The bytes of number x: 6 bits, a sign bit, and a bit that tells if
    there is more in the first, then 7 in each. Without sign (first=7), 7
    in all."""
    b = list(x.bits)
    out = []
    take = first
    while True:
        part, b = b[:take], b[take:]
        part += [0] * (take - len(part))
        if take == 6:
            part.append(int(x.neg))
        out.append(BV(part + [int(bool(b))]))
        take = 7
        if not b:
            return out


def payload(n, sign, first=6):
    """n bytes that hold a number, and the number."""
    out = []
    value = []
    for i in range(n):
        take = first if i == 0 else 7
        b = ['c%d_%d' % (i, j) for j in range(take)]
        value += b
        if take == 6:
            b.append(int(sign))
        out.append(BV(b + [int(i < n - 1)]))
    return out, BV(value, sign)


def describe(x):
    return '%snumbers of %d bits' % ('negative ' if x.neg else '',
                                     len(x.bits))


def same(got, want):
    return got.__class__ is list and len(got) == len(want) \
        and all(x == y for x, y in zip(got, want))


# ------------------------------------------------------------------ Python
def python(rep, m, path, name, args):
    """(value, message)"""
    f = m.function(path, name)
    m.line = f.node.lineno
    try:
        return m.call(f, args), None
    except Undecided as e:
        return None, 'it cannot be told what it is: %s' % e
    except Raised as e:
        return None, '%s is raised' % e.name


def seq(v):
    return v.items if v.__class__ is Seq else None


def py_case(rep, m, path, name, args, ok, what, case):
    v, err = python(rep, m, path, name, args)
    where = (RULE, path, name, m.line)
    if err is None and not ok(v):
        err = 'it is not what it should be'
    rep.check(err is None, where,
              '%s: %s' % (what, err or ''), case)


def python_numbers(rep):
    m = Machine(REPO)
    try:
        bsdiff(rep, m)
        sizes(rep, m)
        usizes(rep, m)
        crle(rep, m)
    finally:
        rep.visited |= m.visited
        rep.steps += m.steps


def bsdiff_numbers(rep):
    m = Machine(REPO)
    try:
        bsdiff(rep, m)
    finally:
        rep.visited |= m.visited
        rep.steps += m.steps


def python_sizes(rep):
    m = Machine(REPO)
    try:
        sizes(rep, m)
    finally:
        rep.visited |= m.visited
        rep.steps += m.steps


def bsdiff(rep, m):
    """Sign and magnitude in eight bytes, the lowest first."""
    for n in range(64):
        for sign in ((False, True) if n else (False,)):
            x = number(n, sign)
            b = list(x.bits) + [0] * (63 - n) + [int(sign)]
            want = [BV(b[8 * i:8 * i + 8]) for i in range(8)]
            py_case(rep, m, 'detools/create.py', 'offtout', [x],
                    lambda v: same(seq(v), want),
                    'a number written to a bsdiff patch', describe(x))
    for sign in (False, True):
        x = BV(['b%d' % i for i in range(63)], sign)
        b = list(x.bits) + [int(sign)]
        data = [BV(b[8 * i:8 * i + 8]) for i in range(8)]
        py_case(rep, m, 'detools/apply.py', 'offtin', [Seq('bytes', data)],
                lambda v: v == x, 'a number read from a bsdiff patch',
                describe(x))


def sizes(rep, m):
    for n in range(1, 11):
        for sign in (False, True):
            data, x = payload(n, sign)
            for name in ('unpack_size', 'unpack_size_bytes'):
                more = data + [BV(['n%d' % i for i in range(8)])]
                fin = Stream(more) if name == 'unpack_size' \
                    else Seq('bytes', data)

                def ok(v):
                    return v == x and (fin.__class__ is Seq
                                       or fin.pos == n)
                py_case(rep, m, 'detools/common.py', name, [fin], ok,
                        'a number read from a patch', describe(x))
        if n < 10:
            data, x = payload(n + 1, False)
            v, err = python(rep, m, 'detools/common.py', 'unpack_size',
                            [Stream(data[:n])])
            rep.check(err == 'Error is raised',
                      (RULE, 'detools/common.py', 'unpack_size', m.line),
                      'a number of which the end is missing is not reported')
    v, err = python(rep, m, 'detools/common.py', 'unpack_size', [Stream([])])
    rep.check(err == 'Error is raised',
              (RULE, 'detools/common.py', 'unpack_size', m.line),
              'a missing number is not reported')


def usizes(rep, m):
    """Addresses: 64 bits numbers without sign, as if they had one."""
    store = []

    def pack(v):
        store.append(v)
        return Seq('bytes', [])

    m.over['pack_size'] = pack
    m.over['unpack_size'] = lambda fin: store[-1]
    m.over['unpack_size_with_length'] = \
        lambda fin: Seq('tuple', [store[-1], const(1)])
    for n in range(65):
        x = number(n, False)

        def fits(v):
            y = store[-1] if store else None
            return y == m.view(x, 64) or (
                y.__class__ is SignedView and y.b == x)
        store[:] = []
        py_case(rep, m, 'detools/common.py', 'pack_usize', [x], fits,
                'an address written to a patch', describe(x))
        store[:] = [m.view(x, 64)]
        py_case(rep, m, 'detools/common.py', 'unpack_usize', [Stream([])],
                lambda v: v == x, 'an address read from a patch',
                describe(x))
    m.over.clear()


def crle(rep, m):
    path = 'detools/compression/crle.py'
    for n in range(64):
        x = number(n, False)
        py_case(rep, m, path, 'pack_size', [x],
                lambda v: same(seq(v), encoded(x, 7)),
                'a size written to CRLE data', describe(x))
    for n in range(1, 10):
        data, x = payload(n, False, 7)
        for at in (0, 1):
            more = [BV(['n%d' % i for i in range(8)])]
            py_case(rep, m, path, 'unpack_size',
                    [Seq('bytes', more * at + data + more), const(at)],
                    lambda v: seq(v) is not None and len(v.items) == 2
                    and v.items[0] == x and v.items[1] == const(at + n),
                    'a size read from CRLE data', describe(x))


# ----------------------------------------------------------------- C
def c_call(rep, mod, name, ext, make, check, where, what, case):
    m = bitir.Machine(mod)
    m.ext.update(ext(m))
    err = None
    try:
        args = make(m)
        r = m.call(name, args)
        err = check(m, r)
    except Undecided as e:
        err = 'it cannot be told what it is: %s' % e
    finally:
        rep.visited |= {x for x in m.visited if not x.startswith('b_')}
        rep.steps += m.steps
    rep.check(err is None, where, '%s: %s' % (what, err or ''), case)


def obj(m):
    """A Python object, with more than one reference."""
    p = m.new()
    m.store(p, 8, const(2))
    return p


def written(store):
    def from_string(m, args):
        p, n = args
        if not n.known():
            raise Undecided('an unknown number of bytes')
        store.append([m.load(('p', p[1], p[2] + i), 1)
                      for i in range(n.value())])
        return obj(m)
    return from_string


def extension(rep):
    """pack_size() of the C extension."""
    src = os.path.join(REPO, 'detools/bsdiff.c')
    mod = compile_ir([src], [], [PYTHON])
    for fn in ('m_pack_size', 'append_size'):
        if fn not in mod.functions:
            raise AnalysisBroken('no function %s' % fn)
    for name, width in (('m_pack_size', 64), ('append_size', 32)):
        f = mod.functions[name]
        where = (RULE, 'detools/bsdiff.c', name, f.line)
        for n in range(width + 1):
            for sign in ((False, True) if n else (False,)):
                x = number(n, sign)
                if n == width:
                    if not sign:
                        continue
                    x = const(-(1 << (width - 1)))
                store = []

                def ext(m):
                    def none(m, args):
                        return bits.ZERO
                    return {
                        'PyLong_AsLongLong': lambda m, args: x,
                        'PyLong_AsLong': lambda m, args: x,
                        'PyErr_Occurred': none,
                        'PyBytes_FromStringAndSize': written(store),
                        'PyList_Append': none, 'Py_DECREF': none,
                        'Py_XDECREF': none, 'Py_INCREF': none,
                    }

                def check(m, r):
                    if not store:
                        return 'nothing is written'
                    if len(store) > 1 or not same(store[0], encoded(x)):
                        return 'it is not what it should be'
                    return None

                c_call(rep, mod, name, ext,
                       (lambda m: [obj(m), x])
                       if name == 'append_size' else
                       (lambda m: [obj(m), obj(m)]),
                       check, where, 'a number written to a patch',
                       describe(x))


def applier(rep):
    """The numbers read by the C applier."""
    include = [os.path.join(REPO, 'c'), os.path.join(REPO, 'c/heatshrink')]
    mod = compile_ir([os.path.join(HERE, 'harness/codec.c')],
                     only('CRLE') + NOFILE, include)
    for name, first, signs, fn, what in (
            ('b_header', 6, (False,), 'chunk_unpack_header_size',
             'a number read from the header'),
            ('b_reader', 6, (False, True), 'patch_reader_unpack_size',
             'a number read from a patch'),
            ('b_crle', 7, (False,), 'unpack_usize',
             'a size read from CRLE data')):
        f = mod.functions.get(fn)
        where = (RULE, 'c/detools.c', fn, f.line if f else 0)
        for n in range(1, 12):
            for sign in signs:
                for split in range(1, n + 1):
                    data, x = payload(n, sign, first)
                    out = []

                    def make(m):
                        p = m.new()
                        for i, b in enumerate(data):
                            m.store(('p', p[1], i), 1, b)
                        out.append(m.new())
                        return [p, const(n), const(split), out[0]]

                    def check(m, r):
                        r = bits.signed(r, 32)
                        if not r.known():
                            return 'the result is not known'
                        r = r.value()
                        if n > 4:
                            if r < 0 and r > -1000:
                                return None
                        elif r != 0:
                            return 'it is not read (%d bytes)' % n
                        if r != 0:
                            return 'it is not read and not refused'
                        got = m.load(out[0], 4)
                        if got != bits.wrap(x, 32) or len(x.bits) > 31:
                            return 'it is not what it should be'
                        return None

                    c_call(rep, mod, name, lambda m: {}, make, check, where,
                           what, '%s in %d bytes, %d of them first' % (
                               describe(x), n, split))


assert UNDEF is not None and named
