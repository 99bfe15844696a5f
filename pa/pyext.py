"""Typestate of the Python extension modules: references, buffers and
exceptions.

Functions are interpreted path by path over LLVM IR, with functions of the
same file inlined. A value is a small number, the sign of a number, an
address, an object, or unknown. Each function of the Python API that may fail
does so on one path. States that are equal are merged; numbers that change in
loops are reduced to their sign.
"""

import os

from sa.ir import NULL, UNDEF, AnalysisBroken, Module, Parser, cfg, layout
from sa import ir
from tasks import REPO

PYTHON = '/usr/include/python3.12'
TOP, POS, NEG, NONNULL = 'top', 'pos', 'neg', 'nonnull'
LIMIT = 6000000


class Enough(Exception):
    pass


class Report:
    def __init__(self):
        self.alarms = {}
        self.rules = {}
        self.samples = []
        self.visited = set()
        self.steps = 0
        self.loops = ()


def interp():
    return Report()


class State:
    __slots__ = ('mem', 'res', 'exc', 'n', 'seen')

    def __init__(self):
        self.mem = {}           # (object, offset) -> value
        self.res = {}           # resource -> kind
        self.exc = False        # an exception is set
        self.n = 0
        self.seen = {}

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.res = dict(self.res)
        s.exc = self.exc
        s.n = self.n
        s.seen = dict(self.seen)
        return s

    def key(self):
        return (tuple(sorted(self.mem.items(), key=repr)),
                tuple(sorted(self.res.items(), key=repr)), self.exc)


def sign(v):
    if v.__class__ is int:
        return 0 if v == 0 else POS if v > 0 else NEG
    return v


def negative(a):
    return a == NEG or (a.__class__ is int and a < 0)


def positive(a):
    return a == POS or (a.__class__ is int and a > 0)


class Analysis:
    def __init__(self, rep, path, flags=()):
        self.rep = rep
        self.path = path
        src = os.path.join(REPO, path)
        self.m = ir.compile_ir([src], ['-Xclang', '-disable-llvm-passes',
                                       *flags], [PYTHON])
        self.fn = None
        self.line = 0
        self.names = 0
        self.reached = {}

    # -- reports
    def oblige(self, rule, detail=None):
        r = 'rule:' + rule
        self.rep.rules[r] = self.rep.rules.get(r, 0) + 1
        if detail and len(self.rep.samples) < 12:
            self.rep.samples.append('%s at %s:%s in %s: %s' % (
                r, self.path, self.line, self.fn, detail))

    def check(self, ok, rule, msg, detail=None):
        self.oblige(rule, detail)
        if not ok:
            self.rep.alarms.setdefault((rule, self.fn, msg), {
                'rule': 'rule:' + rule, 'file': self.path,
                'line': self.line, 'func': self.fn, 'msg': msg,
                'path': ['%s:%s %s' % (self.path, self.line, self.fn)]})

    # -- values
    def val(self, regs, x):
        if x.__class__ is int:
            return x
        if x is NULL:
            return 0
        if x is UNDEF:
            return TOP
        if x[0] == 'r':
            return regs.get(x[1], TOP)
        if x[0] == 'g':
            return ('p', '@' + x[1], 0)
        if x[0] == 'cgep':
            p = self.val(regs, x[1])
            return ('p', p[1], p[2] + x[2]) if p.__class__ is tuple \
                and p[0] == 'p' else p
        if x[0] == 'cast':
            return self.val(regs, x[2])
        return TOP

    def new(self, st, kind):
        st.n += 1
        r = ('o', '%s#%d' % (kind, st.n))
        st.res[r] = kind
        return r

    # -- interpretation
    def call(self, st, name, args, depth=0):
        """[(state, value)]"""
        f = self.m.functions.get(name)
        model = getattr(self, 'f_' + name, None)
        if model is not None:
            return model(st, args)
        if f is None or f.file is None \
                or not f.file.endswith(os.path.basename(self.path)):
            return self.external(st, name, args)
        if self.recursive(name):
            if self.uses_python(name):
                raise AnalysisBroken('%s calls itself' % name)
            for a in args:
                if a.__class__ is tuple and a[0] == 'p':
                    for k in st.mem:
                        if k[0] == a[1]:
                            st.mem[k] = TOP
            return [(st, TOP)]
        return self.run(st, f, args, depth)

    def callees(self, name):
        f = self.m.functions.get(name)
        out = set()
        for b in f.blocks.values() if f is not None else ():
            for i in b:
                if i.op == 'call' and i.a[0] == 'g':
                    out.add(i.a[1])
        return out

    def reach(self, name):
        if name not in self.reached:
            seen, todo = set(), [name]
            while todo:
                for c in self.callees(todo.pop()):
                    if c not in seen:
                        seen.add(c)
                        todo.append(c)
            self.reached[name] = seen
        return self.reached[name]

    def recursive(self, name):
        return name in self.reach(name)

    def uses_python(self, name):
        return any(x.startswith(('Py', '_Py')) for x in self.reach(name))

    def run(self, st, f, args, depth):
        cfg(f)
        self.rep.visited.add(f.name)
        self.names += 1
        frame = '%s.%d' % (f.name, self.names)
        regs = {p: a for (_, p), a in zip(f.params, args)}
        outer = (self.fn, self.line)
        out = []
        done = set()
        work = [(f.order[0], None, st, regs, {})]
        while work:
            blk, prev, s, r, hist = work.pop()
            if blk in f.headers and prev is not None \
                    and f.rpo[prev] >= f.rpo[blk]:
                hist = dict(hist)
                old = hist.get(blk)
                if old is not None:
                    self.widen(s, r, old)
                hist[blk] = (dict(s.mem), dict(r))
            elif blk in f.headers:
                hist = dict(hist)
                hist[blk] = (dict(s.mem), dict(r))
            k = (blk, s.key(), tuple(sorted(
                (x, y) for x, y in r.items()
                if x in self.live(f, blk))))
            k = (k[0], k[1], repr(k[2]))
            if k in done:
                continue
            done.add(k)
            live = [(s, r)]
            for ins in f.blocks[blk]:
                nxt = []
                for s2, r2 in live:
                    self.rep.steps += 1
                    if self.rep.steps > LIMIT:
                        if self.rep.alarms:
                            raise Enough
                        raise AnalysisBroken('too many paths in %s' % f.name)
                    self.fn = f.name
                    self.line = ins.line or self.line
                    op = ins.op
                    if op == 'ret':
                        v = self.val(r2, ins.a) if ins.ty.k != 'void' \
                            else None
                        for a in [x for x in s2.mem
                                  if x[0].startswith(frame)]:
                            del s2.mem[a]
                        held = [x for x in s2.mem if x[1] == 'held']
                        if held:
                            used = {y[1] for y in [v, *s2.mem.values()]
                                    if y.__class__ is tuple}
                            for x in held:
                                if x[0] not in used:
                                    del s2.mem[x]
                        out.append((s2, v))
                    elif op == 'unreachable':
                        pass
                    elif op in ('jmp', 'br', 'switch'):
                        for b in self.targets(r2, ins):
                            work.append((b, blk, s2.copy(), dict(r2), hist))
                    elif op == 'phi':
                        for v, l in ins.x:
                            if l == prev:
                                r2[ins.dst] = self.val(r2, v)
                        nxt.append((s2, r2))
                    elif op == 'call':
                        name = ins.a[1] if ins.a[0] == 'g' else None
                        a = [self.val(r2, v) for _, v in ins.b]
                        if name is None:
                            v = self.val(r2, ins.a)
                            if v.__class__ is tuple and v[0] == 'p' \
                                    and v[1][0] == '@':
                                name = v[1][1:]
                        rs = self.call(s2, name, a, depth + 1) \
                            if name is not None else [(s2, 0), (
                                s2.copy(), NEG), (s2.copy(), POS)]
                        self.fn = f.name
                        for s3, v in rs:
                            r3 = dict(r2) if len(rs) > 1 else r2
                            if ins.dst:
                                r3[ins.dst] = v
                            nxt.append((s3, r3))
                    else:
                        v = self.step(s2, r2, ins, frame)
                        if ins.dst:
                            r2[ins.dst] = v
                        nxt.append((s2, r2))
                live = nxt
        self.fn, self.line = outer
        uniq = {}
        for s, v in out:
            uniq.setdefault((s.key(), repr(v)), (s, v))
        return list(uniq.values())

    def live(self, f, blk):
        ir.liveness(f)
        return f.livein[blk]

    def widen(self, s, r, old):
        for cur, was in ((s.mem, old[0]), (r, old[1])):
            for k, v in list(cur.items()):
                w = was.get(k)
                if v == w:
                    continue
                if v.__class__ is int or v in (POS, NEG, TOP):
                    a, b = sign(v), sign(w) if w is not None else TOP
                    cur[k] = a if a == b and v in (POS, NEG) or a == b else (
                        TOP if (positive(v) and (w == 0 or negative(w)))
                        or (negative(v) and (w == 0 or positive(w)))
                        or v in (0, TOP) else a)

    def targets(self, regs, ins):
        if ins.op == 'jmp':
            return [ins.a]
        v = self.val(regs, ins.a)
        if ins.op == 'br':
            if v.__class__ is int:
                return [ins.b if v else ins.x]
            if v == TOP:
                return [ins.b, ins.x]
            return [ins.b]
        if v.__class__ is int:
            for k, l in ins.x:
                if k == v:
                    return [l]
            return [ins.b]
        return [ins.b] + [l for _, l in ins.x]

    def load(self, st, p):
        if p.__class__ is tuple and p[0] == 'p':
            return st.mem.get((p[1], p[2]), TOP)
        return TOP

    def step(self, st, regs, ins, frame):
        op = ins.op
        if op == 'alloca':
            return ('p', '%s%s' % (frame, ins.dst), 0)
        if op == 'load':
            p = self.val(regs, ins.a)
            if p.__class__ is tuple and p[0] == 'o':
                self.check(p in st.res or 'global' in p[1], 'live',
                           'an object is used after it has been released')
            return self.load(st, p)
        if op == 'store':
            p = self.val(regs, ins.b)
            if p.__class__ is tuple and p[0] == 'p':
                st.mem[(p[1], p[2])] = self.val(regs, ins.a)
            return None
        if op == 'getelementptr':
            p = self.val(regs, ins.a)
            if p.__class__ is tuple and p[0] == 'p':
                off = ins.b
                for v, _, sc in ins.x:
                    k = self.val(regs, v)
                    if k.__class__ is not int:
                        return TOP
                    off += k * sc
                return ('p', p[1], p[2] + off)
            return p if p.__class__ is tuple else TOP
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr',
                  'bitcast'):
            v = self.val(regs, ins.a)
            if op == 'trunc' and v in (POS, NEG):
                return TOP
            return v
        if op == 'icmp':
            return self.icmp(ins.x, self.val(regs, ins.a),
                             self.val(regs, ins.b))
        if op == 'select':
            c = self.val(regs, ins.a)
            if c.__class__ is int:
                return self.val(regs, ins.b if c else ins.x)
            return TOP
        a, b = self.val(regs, ins.a), self.val(regs, ins.b)
        if a.__class__ is int and b.__class__ is int:
            if op == 'add':
                return a + b
            if op == 'sub':
                return a - b
            if op == 'mul':
                return a * b
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
        if op == 'add':
            for x, y in ((a, b), (b, a)):
                if positive(x) and (positive(y) or y == 0):
                    return POS
                if negative(x) and (negative(y) or y == 0):
                    return NEG
        if op in ('and', 'mul') and 0 in (a, b):
            return 0
        return TOP

    def icmp(self, p, a, b):
        if p in ('eq', 'ne'):
            same = None
            if a.__class__ is int and b.__class__ is int:
                same = a == b
            elif a.__class__ is tuple and b.__class__ is tuple:
                same = a == b
            else:
                for x, y in ((a, b), (b, a)):
                    if x == 0 and (y in (POS, NEG, NONNULL)
                                   or y.__class__ is tuple):
                        same = False
                    if x == POS and negative(y):
                        same = False
            return TOP if same is None else int(same == (p == 'eq'))
        if a.__class__ is int and b.__class__ is int:
            return int({'lt': a < b, 'le': a <= b, 'gt': a > b,
                        'ge': a >= b}[p[1:]])
        if p[0] == 's':
            for x, y, q in ((a, b, p[1:]),
                            (b, a, {'lt': 'gt', 'le': 'ge', 'gt': 'lt',
                                    'ge': 'le'}[p[1:]])):
                if y.__class__ is int and (
                        (positive(x) and y <= 0)
                        or (negative(x) and y >= 0)):
                    return int((q[0] == 'g') == positive(x))
        return TOP

    # -- models
    def fail(self, st, v):
        s = st.copy()
        s.exc = True
        return [(s, v)]

    def external(self, st, name, args):
        if name in ('exit', 'abort', '_exit', 'Py_Exit', 'Py_FatalError'):
            self.check(False, 'process', 'the process is ended')
            return []
        if name.startswith('llvm.memset') and args:
            p = args[0]
            if p.__class__ is tuple and p[0] == 'p' and args[1] == 0 \
                    and args[2].__class__ is int:
                for k in [k for k in st.mem if k[0] == p[1]
                          and p[2] <= k[1] < p[2] + args[2]]:
                    st.mem[k] = 0
                for i in range(0, args[2], 8):
                    st.mem[(p[1], p[2] + i)] = 0
            return [(st, TOP)]
        if name.startswith(('PyErr_', 'Py', '_Py')):
            raise AnalysisBroken('no model of %s' % name)
        if name.startswith('llvm.'):
            return [(st, TOP)]
        # A function of another file: zero, or something else.
        return [(st.copy(), 0), (st.copy(), NEG), (st, POS)]

    def f_PyArg_ParseTuple(self, st, args):
        out = self.fail(st, 0)
        fmt = args[1]
        for p in args[2:]:
            if p.__class__ is tuple and p[0] == 'p':
                st.mem[(p[1], p[2])] = NONNULL
        st.mem.pop(fmt, None)
        return out + [(st, 1)]

    def f_PyObject_GetBuffer(self, st, args):
        p = args[1]
        if not (p.__class__ is tuple and p[0] == 'p'):
            raise AnalysisBroken('a buffer that is not known')
        self.oblige('buffers', 'acquired')
        key = ('view',) + p[1:]
        self.check(key not in st.res, 'buffers',
                   'a buffer is overwritten before it has been released')
        out = self.fail(st, -1)
        st.res[key] = 'a buffer'
        st.mem[p[1:]] = NONNULL         # buf
        st.mem[(p[1], p[2] + 8)] = NONNULL
        st.mem[(p[1], p[2] + 16)] = TOP
        return out + [(st, 0)]

    def f_PyBuffer_Release(self, st, args):
        p = args[0]
        key = ('view',) + tuple(p[1:])
        obj = st.mem.get((p[1], p[2] + 8), TOP) if len(p) == 3 else TOP
        self.check(key in st.res or obj == 0, 'buffers',
                   'a buffer that has not been acquired, or has been '
                   'released, is released')
        st.res.pop(key, None)
        if len(p) == 3:
            st.mem[(p[1], p[2] + 8)] = 0
        return [(st, TOP)]

    def object(self, st, args):
        if not self.clean(st):
            return []
        out = self.fail(st, 0)
        v = self.new(st, 'an object')
        return out + [(st, v)]

    f_PyList_New = f_PyBytes_FromStringAndSize = object
    f_PyByteArray_FromStringAndSize = f_PyLong_FromLong = object
    f_PyLong_FromLongLong = f_PyTuple_New = f_Py_BuildValue = object
    f_PyBytes_FromString = f_PyLong_FromSsize_t = object
    f_PyByteArray_FromObject = f_PyUnicode_FromString = object

    def status(self, st, args):
        self.uses(st, args)
        if not self.clean(st):
            return []
        return self.fail(st, -1) + [(st, 0)]

    def f_PyList_Append(self, st, args):
        out = self.status(st, args)
        if out and args[1].__class__ is tuple:
            out[1][0].mem[(args[1][1], 'held')] = 1
        return out

    def clean(self, st):
        self.check(not st.exc, 'exceptions',
                   'the Python API is called with an exception set')
        return not st.exc

    f_PyByteArray_Resize = f_PyBytes_AsStringAndSize = status
    f_PyList_Sort = f_PyList_Reverse = status

    def uses(self, st, args):
        for a in args:
            if a.__class__ is tuple and a[0] == 'o':
                self.check(a in st.res or (a[1], 'held') in st.mem, 'live',
                           'an object is used after it has been released')

    def number(self, st, args):
        self.uses(st, args)
        out = self.fail(st, -1)
        return out + [(st, TOP)]

    f_PyLong_AsLongLong = f_PyLong_AsLong = f_PyLong_AsSsize_t = number
    f_PyLong_AsSize_t = f_PyLong_AsUnsignedLong = number
    f_PyLong_AsUnsignedLongLong = number

    def pointer(self, st, args):
        self.uses(st, args)
        return [(st, NONNULL)]

    f_PyByteArray_AsString = f_PyBytes_AsString = pointer
    f_PyByteArray_AS_STRING = f_PyBytes_AS_STRING = pointer

    def size(self, st, args):
        self.uses(st, args)
        return [(st, TOP)]

    f_PyByteArray_Size = f_PyBytes_Size = f_PyList_Size = size
    f_PyByteArray_GET_SIZE = f_PyBytes_GET_SIZE = size
    f_Py_TYPE = f_Py_SIZE = f_PyObject_TypeCheck = size

    def raises(self, st, args):
        st.exc = True
        return [(st, 0)]

    f_PyErr_SetString = f_PyErr_Format = f_PyErr_NoMemory = raises
    f_PyErr_SetNone = f_PyErr_SetObject = f_PyErr_BadArgument = raises
    f_PyErr_SetFromErrno = raises

    def f_PyErr_Clear(self, st, args):
        st.exc = False
        return [(st, TOP)]

    def f_PyErr_Occurred(self, st, args):
        return [(st, NONNULL if st.exc else 0)]

    def f_Py_INCREF(self, st, args):
        v = args[0]
        if v.__class__ is tuple and v[0] == 'o':
            self.uses(st, args)
            if v in st.res:
                n = int(st.res.pop(('more', v), '0')) + 1
                if n > 9:
                    raise AnalysisBroken('too many references')
                st.res[('more', v)] = str(n)
            else:
                st.res[v] = 'an object'
        return [(st, TOP)]

    f_Py_XINCREF = f_Py_IncRef = f_Py_INCREF

    def f_Py_NewRef(self, st, args):
        self.f_Py_INCREF(st, args)
        return [(st, args[0])]

    f__Py_NewRef = f_Py_XNewRef = f__Py_XNewRef = f_Py_NewRef

    def f_Py_DECREF(self, st, args):
        v = args[0]
        if v.__class__ is tuple and v[0] == 'o':
            self.check(v in st.res, 'references',
                       'an object is released twice')
            n = int(st.res.pop(('more', v), '0'))
            if n > 1:
                st.res[('more', v)] = str(n - 1)
            if n == 0:
                st.res.pop(v, None)
        elif v == 0:
            self.check(False, 'references', 'NULL is released')
        return [(st, TOP)]

    f_Py_DecRef = f_Py_DECREF

    def f_Py_XDECREF(self, st, args):
        if args[0] == 0:
            return [(st, TOP)]
        return self.f_Py_DECREF(st, args)

    def allocate(self, st, args):
        s = st.copy()
        return [(s, 0), (st, self.new(st, 'memory'))]

    f_malloc = f_calloc = f_PyMem_Malloc = f_PyMem_RawMalloc = allocate
    f_PyMem_Calloc = f_PyObject_Malloc = allocate

    def f_free(self, st, args):
        v = args[0]
        if v.__class__ is tuple and v[0] == 'o':
            self.check(v in st.res, 'references', 'memory is freed twice')
            st.res.pop(v, None)
        return [(st, TOP)]

    f_PyMem_Free = f_PyMem_RawFree = f_PyObject_Free = f_free

    def f_PyEval_SaveThread(self, st, args):
        return [(st, NONNULL)]

    def f_PyEval_RestoreThread(self, st, args):
        return [(st, TOP)]

    # -- entries
    def methods(self):
        """The functions of the method table."""
        out = []
        for name, (ty, init, _) in self.m.globals.items():
            if init.__class__ is tuple and init[0] == 'agg' \
                    and 'PyMethodDef' in repr(ty.elem or ''):
                for _, row in init[1]:
                    if row.__class__ is tuple and row[0] == 'agg':
                        f = row[1][1][1]
                        if f.__class__ is tuple and f[0] == 'g':
                            out.append(f[1])
        if not out:
            raise AnalysisBroken('no method table in %s' % self.path)
        return out

    def entry(self, name):
        f = self.m.functions[name]
        st = State()
        rs = self.run(st, f, [NONNULL] * len(f.params), 0)
        self.fn, self.line = name, f.line
        self.check(rs, 'exceptions', 'it does not return')
        for s, v in rs:
            if v == 0:
                self.check(s.exc, 'exceptions',
                           'failure is returned without an exception',
                           'NULL')
            else:
                self.check(not s.exc, 'exceptions',
                           'success is returned with an exception set',
                           'an object')
                self.check(v != TOP and v not in (POS, NEG), 'exceptions',
                           'what is returned is not known')
            if v.__class__ is tuple and v[0] == 'o':
                self.check(v in s.res, 'references',
                           'the object returned has been released')
            left = ['an object' if k.isdigit() else k
                    for r, k in s.res.items() if r != v]
            self.check(not left, 'release', '%s is not released' % (
                left[0] if left else ''), 'all is released')


def module(rep, path):
    a = Analysis(rep, path)
    for name in a.methods():
        try:
            a.entry(name)
        except Enough:
            break


assert Module and Parser and layout
