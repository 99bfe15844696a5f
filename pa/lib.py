"""Models of the Python built-ins and of the external modules detools uses."""

import builtins
import struct as struct_module

from sa import dom
from sa.dom import INF, Infeasible
from sa.ir import AnalysisBroken
from .interp import Model
from .values import (EMPTY, FALSE, NONE, TRUE, Acc, B, Code, K, Ref, T, Tup,
                     as_bytes, boolean, is_int, mkbytes, unwrap)


def one(st, v):
    return [(st, v)]


def unknown(items):
    return any(x.__class__ is Acc or (x.__class__ is T and x.kind == 'seq'
                                      and x.op == 'phi') for x in items)


class List(Model):
    name = 'list'

    def elements(self, it, st, r):
        items = st.get(r, 'items')
        return None if unknown(items) else list(items)

    def length(self, it, st, r):
        items = st.get(r, 'items')
        if not unknown(items):
            return len(items)
        n = 0
        for x in items:
            if x.__class__ is Acc or (x.__class__ is T and x.op == 'phi'
                                      and x.kind == 'seq'):
                n = dom.add(n, it.term('len', (x,), 0))
            else:
                n = dom.add(n, 1)
        return n

    def snapshot(self, it, st, r):
        return T('list', (tuple(it.freeze(st, x) for x in
                                st.get(r, 'items')),), 'seq')

    def getitem(self, it, st, r, i):
        items = st.get(r, 'items')
        if not unknown(items):
            if i.__class__ is int:
                if -len(items) <= i < len(items):
                    return one(st, items[i])
                it.throw_name(st, 'IndexError')
                return []
        it.may_throw(st)
        return one(st, it.item(st, self.snapshot(it, st, r), i))

    def getslice(self, it, st, r, a, b, k):
        items = st.get(r, 'items')
        if not unknown(items) and all(x == NONE or x.__class__ is int
                                      for x in (a, b, k)):
            f = [None if x == NONE else x for x in (a, b, k)]
            return one(st, it.new(st, it.LIST, items=items[slice(*f)]))
        return one(st, T('slice3', (self.snapshot(it, st, r), a, b, k),
                         'seq'))

    def setitem(self, it, st, r, i, v):
        items = st.get(r, 'items')
        if i.__class__ is int and not unknown(items) \
                and -len(items) <= i < len(items):
            x = list(items)
            x[i] = v
            st.put(r, 'items', tuple(x))
        else:
            st.put(r, 'items', (it.nonce('setitem', (
                T('list', (items,), 'seq'), i, v)),))
        return one(st, NONE)

    def escape(self, it, st, r):
        pass

    def contains(self, it, st, r, x):
        items = self.elements(it, st, r)
        if items is None:
            return one(st, T('in', (x, self.snapshot(it, st, r)), 'bool'))
        return it.contains(st, Tup(items), x)

    def m_append(self, it, st, r, args, kw):
        st.put(r, 'items', st.get(r, 'items') + (args[0],))
        return one(st, NONE)

    def m_insert(self, it, st, r, args, kw):
        items = list(st.get(r, 'items'))
        if args[0].__class__ is int:
            items.insert(args[0], args[1])
            st.put(r, 'items', tuple(items))
        else:
            st.put(r, 'items', (it.nonce('insert'),))
        return one(st, NONE)

    def m_extend(self, it, st, r, args, kw):
        v = args[0]
        e = it.elements(st, v)
        if e is None:
            if v.__class__ is Ref and st.cls(v) is it.LIST:
                e = list(st.get(v, 'items'))
            else:
                e = [T('star', (it.freeze(st, v),))]
        st.put(r, 'items', st.get(r, 'items') + tuple(e))
        return one(st, NONE)

    def m_pop(self, it, st, r, args, kw):
        items = list(st.get(r, 'items'))
        i = args[0] if args else -1
        if not unknown(items) and i.__class__ is int:
            if not -len(items) <= i < len(items):
                it.throw_name(st, 'IndexError')
                return []
            v = items.pop(i)
            st.put(r, 'items', tuple(items))
            return one(st, v)
        st.put(r, 'items', (it.nonce('popped', (T('list', (
            tuple(items),), 'seq'),), 'seq'),))
        return one(st, it.nonce('pop'))

    def m_count(self, it, st, r, args, kw):
        return one(st, it.term('count', (self.snapshot(it, st, r), args[0]),
                               0))

    def m_index(self, it, st, r, args, kw):
        it.may_throw(st)
        return one(st, it.term('index', (self.snapshot(it, st, r), args[0]),
                               0))

    def m_sort(self, it, st, r, args, kw):
        s = self.snapshot(it, st, r)
        st.put(r, 'items', (T('star', (T('sorted', (s,), 'seq'),)),))
        return one(st, NONE)

    def m_reverse(self, it, st, r, args, kw):
        items = st.get(r, 'items')
        if unknown(items):
            st.put(r, 'items', (it.nonce('reversed'),))
        else:
            st.put(r, 'items', items[::-1])
        return one(st, NONE)

    def m_copy(self, it, st, r, args, kw):
        return one(st, it.new(st, it.LIST, items=st.get(r, 'items')))


class Dict(Model):
    name = 'dict'

    def known(self, items):
        return all(x.__class__ is tuple and x[0].__class__ in (K, int, Code)
                   for x in items)

    def length(self, it, st, r):
        items = st.get(r, 'items')
        if self.known(items):
            return len(items)
        return it.term('len', (self.snapshot(it, st, r),), 0)

    def elements(self, it, st, r):
        items = st.get(r, 'items')
        return [k for k, _ in items] if self.known(items) else None

    def snapshot(self, it, st, r):
        out = []
        for x in st.get(r, 'items'):
            if x.__class__ is tuple:
                out.append((x[0], it.freeze(st, x[1])))
            else:
                out.append(x)
        return T('dict', (tuple(out),), 'dict')

    def select(self, it, st, r, key):
        """[(state, value or None)]: the entry with the key."""
        items = st.get(r, 'items')
        key = it.resolve(st, key)
        if not self.known(items):
            for k, v in items if all(x.__class__ is tuple
                                     for x in items) else ():
                if k == key:
                    return one(st, v)
            return None
        d = dict(items)
        if key.__class__ in (K, int, Code):
            return one(st, d.get(key))
        out = []
        cur = st
        for k, v in items:
            s = cur.copy()
            nxt = None
            import ast
            for s2, c in it.compare(s, ast.Eq(), key, k):
                for s3, t in it.branch(s2, c):
                    if t:
                        out.append((s3, v))
                    else:
                        nxt = s3
            if nxt is None:
                return out
            cur = nxt
        out.append((cur, None))
        return out

    def getitem(self, it, st, r, key):
        sel = self.select(it, st, r, key)
        if sel is None:
            it.may_throw(st)
            return one(st, T('item', (self.snapshot(it, st, r), key)))
        out = []
        for s, v in sel:
            if v is None:
                it.throw_name(s, 'KeyError', key)
            else:
                out.append((s, v))
        return out

    def setitem(self, it, st, r, key, v):
        items = st.get(r, 'items')
        key = it.resolve(st, key)
        if self.known(items) and key.__class__ in (K, int, Code):
            d = dict(items)
            d[key] = v
            st.put(r, 'items', tuple(d.items()))
        else:
            if it.on_store is not None:
                it.on_store(st, r, key, v)
            st.put(r, 'items', items + ((key, v),))
        return one(st, NONE)

    def delitem(self, it, st, r, key):
        items = st.get(r, 'items')
        st.put(r, 'items', tuple(x for x in items if x[0] != key))
        return one(st, NONE)

    def contains(self, it, st, r, key):
        sel = self.select(it, st, r, key)
        if sel is None:
            return one(st, T('in', (key, self.snapshot(it, st, r)), 'bool'))
        return [(s, boolean(v is not None)) for s, v in sel]

    def m_get(self, it, st, r, args, kw):
        sel = self.select(it, st, r, args[0])
        d = args[1] if len(args) > 1 else NONE
        if sel is None:
            return one(st, T('get', (self.snapshot(it, st, r), args[0], d)))
        return [(s, d if v is None else v) for s, v in sel]

    def m_items(self, it, st, r, args, kw):
        items = st.get(r, 'items')
        if self.known(items):
            return one(st, Tup([Tup(x) for x in items]))
        return one(st, T('items', (self.snapshot(it, st, r),), '(,)'))

    def m_keys(self, it, st, r, args, kw):
        items = st.get(r, 'items')
        if self.known(items):
            return one(st, Tup([x[0] for x in items]))
        return one(st, T('keys', (self.snapshot(it, st, r),), 'seq'))

    def m_values(self, it, st, r, args, kw):
        items = st.get(r, 'items')
        if self.known(items):
            return one(st, Tup([x[1] for x in items]))
        return one(st, T('values', (self.snapshot(it, st, r),), 'seq'))

    def m_update(self, it, st, r, args, kw):
        v = args[0] if args else None
        if v is not None and v.__class__ is Ref and st.cls(v) is self:
            for k, x in st.get(v, 'items'):
                self.setitem(it, st, r, k, x)
        elif v is not None:
            st.put(r, 'items', (it.nonce('update'),))
        for k, x in kw.items():
            self.setitem(it, st, r, K(k), x)
        return one(st, NONE)

    def m_pop(self, it, st, r, args, kw):
        sel = self.select(it, st, r, args[0])
        if sel is None:
            return one(st, it.nonce('pop'))
        out = []
        for s, v in sel:
            if v is None:
                if len(args) > 1:
                    out.append((s, args[1]))
                else:
                    it.throw_name(s, 'KeyError')
            else:
                self.delitem(it, s, r, it.resolve(s, args[0]))
                out.append((s, v))
        return out

    def m_setdefault(self, it, st, r, args, kw):
        return self.m_get(it, st, r, args, kw)


class Gen(Model):
    name = 'generator'


class File(Model):
    """A file-like object: content (B), pos (an integer, or None at the
    end)."""
    name = 'file'

    def where(self, it, st, r):
        p = st.get(r, 'pos')
        return it.length(st, st.get(r, 'content')) if p == NONE else p

    def hook(self, it, st, r, what, *a):
        h = st.get(r, 'hook')
        if h is not None:
            return h.data(it, st, r, what, *a)
        return None

    def m_read(self, it, st, r, args, kw):
        h = self.hook(it, st, r, 'read', *args)
        if h is not None:
            return h
        content = st.get(r, 'content')
        pos = self.where(it, st, r)
        size = args[0] if args else NONE
        if not is_int(size):
            if size != NONE:
                raise AnalysisBroken('read of an unknown size')
            return self.take(it, st, r, content, pos, None)
        out = []
        for s, neg in it.branch(st, T('le0', (dom.add(size, 1),))):
            out.extend(self.take(it, s, r, content, pos,
                                 None if neg else dom.add(pos, size)))
        return out

    def take(self, it, st, r, content, lo, hi):
        n = it.length(st, content)
        out = []
        for s, past in it.branch(st, T('le0', (dom.sub(n, lo),))):
            if past:
                out.append((s, EMPTY))
                continue
            if hi is None:
                cases = [(s, n)]
            else:
                cases = []
                for s2, over in it.branch(s, T('le0', (dom.sub(n, hi),))):
                    cases.append((s2, n if over else hi))
            for s2, h in cases:
                s2.put(r, 'pos', h)
                out.append((s2, it.sub(s2, content, lo, h)))
        return out

    def m_write(self, it, st, r, args, kw):
        h = self.hook(it, st, r, 'write', *args)
        if h is not None:
            return h
        data = as_bytes(args[0])
        content = st.get(r, 'content')
        if data is None:
            if args[0].__class__ is Ref and st.cls(args[0]) is self:
                data = st.get(args[0], 'content')
            else:
                data = EMPTY
                if it.kind(args[0]) == 'str':
                    return one(st, it.nonce('written'))
                it.alarm('type', 'something else than bytes is written')
        n = it.length(st, data)
        if st.get(r, 'pos') == NONE:
            st.put(r, 'content', mkbytes((content, data)))
            return one(st, n)
        pos = self.where(it, st, r)
        size = it.length(st, content)
        out = []
        for s, past in it.branch(st, T('le0', (dom.sub(size, pos),))):
            if past:
                gap = dom.sub(pos, size)
                if s.facts.eq0(gap):
                    new = mkbytes((content, data))
                else:
                    new = mkbytes((content, T('repeat', (K(b'\0'), gap),
                                              'bytes'), data))
                s.put(r, 'content', new)
                s.put(r, 'pos', dom.add(pos, n))
                out.append((s, n))
                continue
            end = dom.add(pos, n)
            head = it.sub(s, content, 0, pos)
            for s2, over in it.branch(s, T('le0', (dom.sub(size, end),))):
                tail = EMPTY if over else it.sub(s2, content, end, size)
                s2.put(r, 'content', mkbytes((head, data, tail)))
                s2.put(r, 'pos', end)
                out.append((s2, n))
        return out

    def m_seek(self, it, st, r, args, kw):
        off = args[0]
        wh = args[1] if len(args) > 1 else kw.get('whence', 0)
        h = self.hook(it, st, r, 'seek', off, wh)
        if h is not None:
            return h
        if not is_int(off):
            raise AnalysisBroken('seek to %r' % (off,))
        if wh == 0:
            p = off
        elif wh == 1:
            p = dom.add(self.where(it, st, r), off)
        elif wh == 2:
            if off == 0:
                st.put(r, 'pos', NONE)
                return one(st, self.where(it, st, r))
            p = dom.add(it.length(st, st.get(r, 'content')), off)
        else:
            raise AnalysisBroken('seek from an unknown place')
        out = []
        for s, neg in it.branch(st, T('le0', (dom.add(p, 1),))):
            if neg:
                it.throw_name(s, 'ValueError')
                continue
            n = it.length(s, s.get(r, 'content'))
            s.put(r, 'pos', p if p != n else NONE)
            out.append((s, p))
        return out

    def m_tell(self, it, st, r, args, kw):
        return one(st, self.where(it, st, r))

    def m_getvalue(self, it, st, r, args, kw):
        return one(st, st.get(r, 'content'))

    m_getbuffer = m_getvalue

    def m_flush(self, it, st, r, args, kw):
        return one(st, NONE)

    def m_close(self, it, st, r, args, kw):
        st.put(r, 'closed', TRUE)
        return one(st, NONE)

    def m_truncate(self, it, st, r, args, kw):
        if args:
            st.put(r, 'content', B((T('repeat', (K(b'\0'), args[0]),
                                      'bytes'),)))
        return one(st, NONE)

    def m_fileno(self, it, st, r, args, kw):
        return one(st, T('fileno', (r,)))

    def m_seekable(self, it, st, r, args, kw):
        return one(st, TRUE)

    def snapshot(self, it, st, r):
        return unwrap(st.get(r, 'content'))

    def length(self, it, st, r):
        return it.length(st, st.get(r, 'content'))

    def getslice(self, it, st, r, a, b, k):
        return it.get_slice(st, st.get(r, 'content'), T('slicer', (a, b, k)))

    def leave(self, it, st, r):
        st.put(r, 'closed', TRUE)
        return [st]


class Buffer(File):
    """bytearray and the like."""
    name = 'buffer'

    def leave(self, it, st, r):
        return [st]

    def getitem(self, it, st, r, i):
        return it.get_item(st, st.get(r, 'content'), i)

    def setitem(self, it, st, r, i, v):
        c = st.get(r, 'content')
        st.put(r, 'content', B((T('setbyte', (unwrap(c), i, v), 'bytes'),)))
        return one(st, NONE)

    def m_extend(self, it, st, r, args, kw):
        x = as_bytes(args[0])
        if x is None:
            x = B((it.nonce('bytes', (), 'bytes'),))
        st.put(r, 'content', mkbytes((st.get(r, 'content'), x)))
        return one(st, NONE)


def fork_le(it, st, a, b):
    """[(state, a <= b)]"""
    return it.branch(st, T('le0', (dom.sub(a, b),)))


def b_len(it, st, args, kw):
    v = args[0]
    if v.__class__ is Ref and st.cls(v).__class__ is Code:
        f = it.lookup(st.cls(v), '__len__')
        if f is not None:
            return it.call(st, Code('bound', (f, v)), [], {})
    n = it.length(st, v)
    if n is None:
        n = it.term('len', (it.freeze(st, v),), 0)
    return one(st, it.resolve(st, n))


def extreme(sign):
    def f(it, st, args, kw):
        if len(args) == 1:
            e = it.elements(st, args[0])
            if e is None or kw:
                return one(st, it.term('min' if sign > 0 else 'max', (
                    it.freeze(st, args[0]),)))
            args = e
        if not all(is_int(x) for x in args):
            it.may_throw(st)
            return one(st, T('min' if sign > 0 else 'max', args))
        rs = [(st, args[0])]
        for x in args[1:]:
            nxt = []
            for s, v in rs:
                a, b = (v, x) if sign > 0 else (x, v)
                for s2, le in fork_le(it, s, a, b):
                    # a <= b: min keeps v, max keeps v
                    nxt.append((s2, v if le else x))
            rs = nxt
        return rs
    return f


def b_range(it, st, args, kw):
    if len(args) == 1:
        args = [0, args[0], 1]
    elif len(args) == 2:
        args = [args[0], args[1], 1]
    if not all(is_int(x) for x in args):
        it.may_throw(st)
        return one(st, it.nonce('range?', args, 'ints'))
    return one(st, T('range', args, 'seq'))


def b_enumerate(it, st, args, kw):
    start = args[1] if len(args) > 1 else kw.get('start', 0)
    v = args[0]
    if v.__class__ is Ref and st.cls(v).__class__ is Code:
        f = it.lookup(st.cls(v), '__iter__')
        if f is not None:
            out = []
            for s, g in it.call(st, Code('bound', (f, v)), [], {}):
                out.append((s, T('enumerate', (g, start), 'seq')))
            return out
    return one(st, T('enumerate', (v, start), 'seq'))


def b_zip(it, st, args, kw):
    return one(st, T('zip', [x if x.__class__ is Ref
                             and st.cls(x) is it.LIST
                             and it.elements(st, x) is not None
                             else it.freeze(st, x) for x in args], 'seq'))


def b_sorted(it, st, args, kw):
    e = it.elements(st, args[0])
    if e is not None and not kw:
        if all(x.__class__ is K and isinstance(x.v, str) for x in e):
            return one(st, it.new(st, it.LIST, items=tuple(
                sorted(e, key=lambda x: x.v))))
        if all(x.__class__ is int for x in e):
            return one(st, it.new(st, it.LIST, items=tuple(sorted(e))))
        if len(e) < 2:
            return one(st, it.new(st, it.LIST, items=tuple(e)))
    v = it.freeze(st, args[0])
    kind = v.kind if v.__class__ is T else 'seq'
    extra = tuple(Tup((K(k), x)) for k, x in sorted(kw.items()))
    return one(st, T('sorted', (v,) + extra, kind))


def b_isinstance(it, st, args, kw):
    v, c = args
    cs = c.items if c.__class__ is Tup else (c,)
    unk = False
    for x in cs:
        r = is_instance(it, st, v, x)
        if r:
            return one(st, TRUE)
        if r is None:
            unk = True
    if unk:
        return one(st, T('isinstance', (unwrap(v), c), 'bool'))
    return one(st, FALSE)


def is_instance(it, st, v, c):
    name = c.key if c.__class__ is Code and c.what == 'builtin' else None
    if is_int(v):
        return name in ('int', 'object')
    if v.__class__ is B:
        return name in ('bytes', 'object')
    if v.__class__ is K:
        return name in (type(v.v).__name__, 'object') or (
            isinstance(v.v, bool) and name == 'int')
    if v.__class__ is Tup:
        return name in ('tuple', 'object')
    if v.__class__ is Ref:
        cls = st.cls(v)
        if cls is it.LIST:
            return name in ('list', 'object')
        if cls is it.DICT:
            return name in ('dict', 'object')
        if cls.__class__ is Code:
            h = it.hierarchy(cls)
            if c.__class__ is Code and c.what == 'class':
                return c.key.qual in h if h is not None else (
                    True if cls == c else None)
            return None if it.external_base(cls) is not None else False
        if c.__class__ is Code and c.what == 'class':
            return False
    if v.__class__ is T and v.kind == 'str' and name:
        return name in ('str', 'object')
    return None


def b_super(it, st, args, kw):
    cls = st.env.get('#cls')
    f = it.functions.get(it.context[-1][1])
    self = st.env.get(f.node.args.args[0].arg) if f else None
    if cls is None or self is None:
        raise AnalysisBroken('unsupported super()')
    return one(st, Code('super', (cls, self)))


def b_bytes(it, st, args, kw):
    if not args:
        return one(st, EMPTY)
    v = args[0]
    if is_int(v):
        if v.__class__ is int and v < 4096:
            return one(st, mkbytes((K(bytes(v)),)))
        return one(st, B((T('repeat', (K(b'\0'), v), 'bytes'),)))
    if v.__class__ is Ref and isinstance(st.cls(v), File):
        return one(st, st.get(v, 'content'))
    b = as_bytes(v) if it.kind(v) == 'bytes' else None
    if b is not None:
        return one(st, b)
    e = it.elements(st, v)
    if e is not None and all(x.__class__ is int and 0 <= x < 256 for x in e):
        return one(st, mkbytes((K(bytes(e)),)))
    it.may_throw(st)
    return one(st, B((T('bytes', (it.freeze(st, v),), 'bytes'),)))


def b_bytearray(it, st, args, kw):
    out = []
    for s, v in b_bytes(it, st, args, kw):
        out.append((s, it.new(s, it.BUFFER, content=v, pos=0)))
    return out


def b_int(it, st, args, kw):
    if not args:
        return one(st, 0)
    v = args[0]
    if is_int(v):
        return one(st, v)
    if v.__class__ is K and isinstance(v.v, (bool, float)):
        return one(st, int(v.v))
    if v.__class__ is K and isinstance(v.v, str):
        try:
            b = args[1] if len(args) > 1 else kw.get('base', 10)
            return one(st, int(v.v, b))
        except ValueError:
            it.throw_name(st, 'ValueError')
            return []
    if v.__class__ is T and v.kind == 'bool':
        return [(s, 1 if t else 0) for s, t in it.branch(st, v)]
    if it.catching:
        it.throw_name(st.copy(), 'ValueError')
    return one(st, it.term('int', tuple(unwrap(x) for x in args)))


def b_bool(it, st, args, kw):
    if not args:
        return one(st, FALSE)
    r = it.truth(st, args[0])
    if r is not None:
        return one(st, boolean(r))
    return [(s, boolean(t)) for s, t in it.branch(st, args[0])]


def b_str(it, st, args, kw):
    if not args:
        return one(st, K(''))
    v = args[0]
    if v.__class__ is K and isinstance(v.v, str):
        return one(st, v)
    if v.__class__ is int:
        return one(st, K(str(v)))
    return one(st, T('str', (it.freeze(st, unwrap(v)),), 'str'))


def b_list(it, st, args, kw):
    if not args:
        return one(st, it.new(st, it.LIST, items=()))
    v = args[0]
    if v.__class__ is Ref and (st.cls(v) is it.GEN
                               or st.cls(v).__class__ is Code):
        return collect(it, st, v)
    e = it.elements(st, v)
    if e is not None:
        return one(st, it.new(st, it.LIST, items=tuple(e)))
    if v.__class__ is Ref and st.cls(v) is it.LIST:
        return one(st, it.new(st, it.LIST, items=st.get(v, 'items')))
    v = it.freeze(st, v)
    return one(st, it.new(st, it.LIST, items=(T('star', (v,)),)))


def collect(it, st, v):
    import ast
    lst = it.new(st, it.LIST, items=())
    var = '#list%d' % lst.oid
    st.env[var] = lst
    node = ast.Pass()
    node.lineno = it.where()[1]
    out = []

    def add(s, x):
        r = s.env[var]
        s.put(r, 'items', s.get(r, 'items') + (x,))
        return [('next', s, None)]
    for k, s, val in it.iterate(node, st, v, add):
        if k == 'next':
            out.append((s, s.env.pop(var)))
        else:
            it.handlers[-1].append((k, s, val))
    return out


def b_tuple(it, st, args, kw):
    if not args:
        return one(st, Tup(()))
    e = it.elements(st, args[0])
    if e is not None:
        return one(st, Tup(e))
    return one(st, it.freeze(st, args[0]))


def b_dict(it, st, args, kw):
    if not args:
        return one(st, it.new(st, it.DICT, items=tuple(
            (K(k), v) for k, v in kw.items())))
    v = args[0]
    if v.__class__ is Ref and st.cls(v) is it.DICT:
        r = it.new(st, it.DICT, items=st.get(v, 'items'))
        for k, x in kw.items():
            it.DICT.setitem(it, st, r, K(k), x)
        return one(st, r)
    return one(st, it.nonce('dict', (it.freeze(st, v),)))


def b_reversed(it, st, args, kw):
    return one(st, T('reversed', (it.freeze(st, args[0]),), 'seq'))


def b_sum(it, st, args, kw):
    e = it.elements(st, args[0])
    if e is not None and all(is_int(x) for x in e):
        n = args[1] if len(args) > 1 else 0
        for x in e:
            n = dom.add(n, x)
        return one(st, n)
    return one(st, it.term('sum', (it.freeze(st, args[0]),)))


def b_abs(it, st, args, kw):
    v = args[0]
    if not is_int(v):
        return one(st, T('abs', (v,)))
    return [(s, dom.scale(v, -1) if neg else v)
            for s, neg in it.branch(st, T('le0', (v,)))]


def quantified(all_):
    def f(it, st, args, kw):
        e = it.elements(st, args[0])
        if e is None:
            return one(st, T('all' if all_ else 'any',
                             (it.freeze(st, args[0]),), 'bool'))
        out = []
        live = [st]
        for x in e:
            nxt = []
            for s in live:
                for s2, t in it.branch(s, x):
                    if t == all_:
                        nxt.append(s2)
                    else:
                        out.append((s2, boolean(not all_)))
            live = nxt
        return out + [(s, boolean(all_)) for s in live]
    return f


def b_map(it, st, args, kw):
    fn = args[0]
    e = it.elements(st, args[1]) if len(args) == 2 else None
    if e is None:
        return one(st, T('mapped', (fn, it.freeze(st, args[1])), 'seq'))
    rs = [(st, [])]
    for x in e:
        rs = [(s2, vs + [v]) for s, vs in rs
              for s2, v in it.call(s, fn, [x], {})]
    return [(s, it.new(s, it.LIST, items=tuple(vs))) for s, vs in rs]


def b_getattr(it, st, args, kw):
    if args[1].__class__ is K and len(args) == 2:
        return it.getattr(st, args[0], args[1].v)
    return one(st, it.nonce('getattr', (args[0],)))


def b_divmod(it, st, args, kw):
    import ast
    out = []
    for s, q in it.arith(st, ast.FloorDiv(), args[0], args[1]):
        for s2, r in it.arith(s, ast.Mod(), args[0], args[1]):
            out.append((s2, Tup((q, r))))
    return out


def none(it, st, args, kw):
    return one(st, NONE)


def pure(op, kind='any'):
    def f(it, st, args, kw):
        a = [it.freeze(st, unwrap(x)) for x in args]
        a += [Tup((K(k), it.freeze(st, v))) for k, v in sorted(kw.items())]
        return one(st, T(op, a, kind))
    return f


def fresh_value(op, kind='any'):
    def f(it, st, args, kw):
        return one(st, it.nonce(op, (), kind))
    return f


def bytes_io(it, st, args, kw):
    v = args[0] if args else EMPTY
    b = as_bytes(v)
    if b is None:
        if v.__class__ is Ref and isinstance(st.cls(v), File):
            b = st.get(v, 'content')
        else:
            b = B((it.nonce('bytes', (), 'bytes'),))
    return one(st, it.new(st, it.FILE, content=b,
                          pos=NONE if b == EMPTY else 0))


def string_io(it, st, args, kw):
    return one(st, it.new(st, it.FILE, content=EMPTY, pos=NONE))


def b_open(it, st, args, kw):
    mode = args[1] if len(args) > 1 else kw.get('mode', K('r'))
    m = mode.v if mode.__class__ is K else '?'
    it.may_throw(st)
    if 'w' in m or 'x' in m:
        content = EMPTY
        pos = NONE
    else:
        content = B((T('file', (args[0],), 'bytes'),))
        pos = 0
    return one(st, it.new(st, it.FILE, content=content, pos=pos,
                          name=args[0], mode=K(m)))


# ------------------------------------------------------------------ struct
def s_pack(it, st, args, kw):
    f = args[0]
    if f.__class__ is not K:
        raise AnalysisBroken('struct.pack with an unknown format')
    fmt = f.v if isinstance(f.v, str) else f.v.decode()
    vals = args[1:]
    parts = []
    order = fmt[0] if fmt[0] in '<>=!@' else ''
    codes = fmt[1:] if order else fmt
    if any(c in 'sp' for c in codes) or not codes.isalpha():
        return one(st, B((T('pack', [f] + [unwrap(x) for x in vals],
                            'bytes'),)))
    live = [(st, ())]
    for c, v in zip(codes, vals):
        n = struct_module.calcsize(order + c)
        nxt = []
        for s, ps in live:
            if not is_int(v):
                it.may_throw(s)
                nxt.append((s, ps + (T('num', (K(order + c), v),
                                       'bytes'),)))
                continue
            lo, hi = (0, 2 ** (8 * n) - 1) if c.isupper() else \
                (-2 ** (8 * n - 1), 2 ** (8 * n - 1) - 1)
            bad = s.copy()
            if it.assume(bad, T('le0', (dom.sub(v, lo - 1),)), True):
                it.throw(bad, it.new_exc(bad, Code('ext', 'struct.error')))
            bad = s.copy()
            if it.assume(bad, T('le0', (dom.sub(hi + 1, v),)), True):
                it.throw(bad, it.new_exc(bad, Code('ext', 'struct.error')))
            try:
                s.facts.add_le0(dom.sub(lo, v))
                s.facts.add_le0(dom.sub(v, hi))
            except Infeasible:
                continue
            if v.__class__ is int:
                p = K(struct_module.pack(order + c, v))
            else:
                p = T('num', (K(order + c), v), 'bytes')
            nxt.append((s, ps + (p,)))
        live = nxt
    return [(s, mkbytes(ps)) for s, ps in live]


def s_unpack(it, st, args, kw):
    f, data = args[0], args[1]
    fmt = f.v if isinstance(f.v, str) else f.v.decode()
    order = fmt[0] if fmt[0] in '<>=!@' else ''
    codes = fmt[1:] if order else fmt
    if not codes.isalpha() or any(c in 'sp' for c in codes):
        it.may_throw(st)
        return one(st, T('unpack', (f, unwrap(data)), 'seq'))
    size = struct_module.calcsize(fmt)
    n = it.length(st, data)
    if n is None:
        n = it.term('len', (unwrap(data),), 0)
    out = []
    for s, ok in it.branch(st, T('eq0', (dom.sub(n, size),))):
        if not ok:
            it.throw(s, it.new_exc(s, Code('ext', 'struct.error')))
            continue
        pos = 0
        vals = []
        b = as_bytes(data)
        for c in codes:
            w = struct_module.calcsize(order + c)
            x = unwrap(it.sub(s, b, pos, pos + w))
            vals.append(number(order + c, x, it))
            pos += w
        out.append((s, Tup(vals)))
    return out


def number(code, x, it):
    """The number with struct format code that bytes x hold."""
    w = struct_module.calcsize(code)
    if x.__class__ is K:
        return struct_module.unpack(code, x.v)[0]
    if x.__class__ is T and x.op == 'num' and is_int(x.args[1]):
        c0 = x.args[0].v
        if c0 == code:
            return x.args[1]
        if c0[:-1] == code[:-1] and c0[-1].lower() == code[-1].lower():
            return it.term('s2u' if c0[-1].islower() else 'u2s',
                           (8 * w, x.args[1]),
                           0 if code[-1].isupper() else -2 ** (8 * w - 1),
                           2 ** (8 * w) - 1 if code[-1].isupper()
                           else 2 ** (8 * w - 1) - 1)
    lo, hi = (0, 2 ** (8 * w) - 1) if code[-1].isupper() else \
        (-2 ** (8 * w - 1), 2 ** (8 * w - 1) - 1)
    return it.term('unp', (K(code), x), lo, hi)


def bit_fields(fmt):
    out = []
    i = 0
    while i < len(fmt):
        c = fmt[i]
        j = i + 1
        while j < len(fmt) and fmt[j].isdigit():
            j += 1
        if c not in 'pus' or j == i + 1:
            raise AnalysisBroken('unsupported bitstruct format ' + fmt)
        out.append((c, int(fmt[i + 1:j])))
        i = j
    return out


def bits_pack(it, st, fmt, vals):
    fields = []
    vals = list(vals)
    live = st
    for c, w in bit_fields(fmt):
        if c == 'p':
            fields.append((w, 0))
            continue
        if not vals:
            it.throw(st, it.new_exc(st, Code('ext', 'bitstruct.Error')))
            return []
        v = vals.pop(0)
        if not is_int(v):
            it.may_throw(live)
            v = it.term('asint', (v,))
        lo, hi = (0, 2 ** w - 1) if c == 'u' else (-2 ** (w - 1),
                                                   2 ** (w - 1) - 1)
        for bad_c in (dom.sub(v, lo - 1), dom.sub(hi + 1, v)):
            bad = live.copy()
            if it.assume(bad, T('le0', (bad_c,)), True):
                it.throw(bad, it.new_exc(bad, Code('ext',
                                                   'bitstruct.Error')))
        try:
            live.facts.add_le0(dom.sub(lo, v))
            live.facts.add_le0(dom.sub(v, hi))
        except Infeasible:
            return []
        fields.append((w, v))
    n = sum(w for w, _ in fields)
    if n % 8:
        fields.append((8 - n % 8, 0))
        n += 8 - n % 8
    if all(v.__class__ is int for _, v in fields):
        x = 0
        for w, v in fields:
            x = (x << w) | (v & ((1 << w) - 1))
        return one(live, mkbytes((K(x.to_bytes(n // 8, 'big')),)))
    return one(live, B((T('bits', (Tup([Tup(f) for f in fields]), n // 8),
                          'bytes'),)))


def bits_unpack(it, st, fmt, data):
    fields = bit_fields(fmt)
    size = (sum(w for _, w in fields) + 7) // 8
    n = it.length(st, data)
    out = []
    b = as_bytes(data)
    for s, ok in it.branch(st, T('le0', (dom.sub(size, n),))):
        if not ok:
            it.throw(s, it.new_exc(s, Code('ext', 'bitstruct.Error')))
            continue
        x = unwrap(it.sub(s, b, 0, size))
        pos = 0
        vals = []
        for c, w in fields:
            if c != 'p':
                if x.__class__ is K:
                    v = int.from_bytes(x.v, 'big') >> (8 * size - pos - w)
                    v &= (1 << w) - 1
                    if c == 's' and v >> (w - 1):
                        v -= 1 << w
                    vals.append(v)
                else:
                    lo, hi = (0, 2 ** w - 1) if c == 'u' else (
                        -2 ** (w - 1), 2 ** (w - 1) - 1)
                    vals.append(it.term('bitsof', (x, pos, w, K(c)), lo, hi))
            pos += w
        out.append((s, Tup(vals)))
    return out


def bs_pack(it, st, args, kw):
    return bits_pack(it, st, args[0].v, args[1:])


def bs_unpack(it, st, args, kw):
    return bits_unpack(it, st, args[0].v, args[1])


def bs_compile(it, st, args, kw):
    return one(st, T('bitfmt', (args[0],), 'object'))


def bs_byteswap(it, st, args, kw):
    data = as_bytes(args[1])
    sizes = [int(c) for c in args[0].v]
    if len(data.parts) == 1 and data.parts[0].__class__ is K \
            and len(data.parts[0].v) == sum(sizes):
        out = b''
        pos = 0
        for w in sizes:
            out += data.parts[0].v[pos:pos + w][::-1]
            pos += w
        return one(st, mkbytes((K(out),)))
    return one(st, B((T('byteswap', (args[0], unwrap(data)), 'bytes'),)))


# ------------------------------------------------------------------ methods
def m_join(it, st, v, args, kw):
    x = args[0]
    e = it.elements(st, x)
    if it.kind(v) == 'str':
        if e is not None and v.__class__ is K and all(
                y.__class__ is K for y in e):
            return one(st, K(v.v.join(y.v for y in e)))
        return one(st, T('join', (v, it.freeze(st, x)), 'str'))
    if v == EMPTY:
        if e is not None:
            ps = [as_bytes(y) for y in e]
            if all(p is not None for p in ps):
                return one(st, mkbytes(ps))
        if x.__class__ is Ref and st.cls(x) is it.LIST:
            parts = []
            for y in st.get(x, 'items'):
                if y.__class__ is Acc:
                    parts.append(T('joinacc', (y,), 'bytes'))
                elif y.__class__ is T and y.op == 'star':
                    parts.append(T('join', (y.args[0],), 'bytes'))
                else:
                    b = as_bytes(y)
                    parts.append(b if b is not None else
                                 T('join', (y,), 'bytes'))
            return one(st, mkbytes(parts))
    return one(st, B((T('join', (unwrap(v), it.freeze(st, x)), 'bytes'),)))


def m_format(it, st, v, args, kw):
    a = [it.freeze(st, unwrap(x)) for x in args]
    a += [Tup((K(k), it.freeze(st, x))) for k, x in sorted(kw.items())]
    return one(st, T('fmt', [v] + a, 'str'))


def m_pack(it, st, v, args, kw):
    if v.__class__ is T and v.op == 'bitfmt':
        return bits_pack(it, st, v.args[0].v, args)
    return it.external(st, '.pack', [v] + list(args), kw)


def m_unpack(it, st, v, args, kw):
    if v.__class__ is T and v.op == 'bitfmt':
        return bits_unpack(it, st, v.args[0].v, args[0])
    return it.external(st, '.unpack', [v] + list(args), kw)


def m_startswith(it, st, v, args, kw):
    if v.__class__ is K and args[0].__class__ is K:
        return one(st, boolean(v.v.startswith(args[0].v)))
    return one(st, T('startswith', (unwrap(v), unwrap(args[0])), 'bool'))


def m_index(it, st, v, args, kw):
    return one(st, it.term('index', (unwrap(v), args[0]), 0))


def m_count(it, st, v, args, kw):
    return one(st, it.term('count', (unwrap(v), unwrap(args[0])), 0))


def pure_method(name, kind='any'):
    def f(it, st, v, args, kw):
        if v.__class__ is K and isinstance(v.v, str) and not kw and all(
                x.__class__ in (K, int) for x in args):
            try:
                r = getattr(v.v, name)(*[x if x.__class__ is int else x.v
                                         for x in args])
            except (AttributeError, TypeError):
                r = None
            if isinstance(r, str) or isinstance(r, bool):
                return one(st, K(r))
            if isinstance(r, list):
                return one(st, it.new(st, it.LIST, items=tuple(
                    K(x) for x in r)))
        return one(st, T('.' + name, [unwrap(v)] + [
            it.freeze(st, unwrap(x)) for x in args], kind))
    return f


def nothing(it, st, v, args, kw):
    return one(st, NONE)


def m_bit_length(it, st, v, args, kw):
    if v.__class__ is int:
        return one(st, v.bit_length())
    return one(st, it.term('bit_length', (v,), 0))


def install(it):
    it.LIST, it.DICT, it.GEN = List(), Dict(), Gen()
    it.FILE, it.BUFFER = File(), Buffer()
    ext = it.externals
    ext.update({
        'len': b_len, 'min': extreme(1), 'max': extreme(-1),
        'range': b_range, 'enumerate': b_enumerate, 'zip': b_zip,
        'sorted': b_sorted, 'isinstance': b_isinstance, 'super': b_super,
        'bytes': b_bytes, 'bytearray': b_bytearray, 'int': b_int,
        'bool': b_bool, 'str': b_str, 'list': b_list, 'tuple': b_tuple,
        'dict': b_dict, 'reversed': b_reversed, 'sum': b_sum, 'abs': b_abs,
        'any': quantified(False), 'all': quantified(True), 'map': b_map,
        'getattr': b_getattr, 'divmod': b_divmod, 'print': none,
        'object.__init__': none, 'open': b_open, 'repr': pure('repr', 'str'),
        'hex': pure('hex', 'str'), 'type': pure('type'),
        'float': pure('float'), 'round': pure('round'),
        'set': b_tuple, 'frozenset': b_tuple, 'iter': lambda it, st, a, k:
        one(st, a[0]), 'memoryview': lambda it, st, a, k: one(st, a[0]),
        'hasattr': fresh_value('hasattr', 'bool'),
        'io.BytesIO': bytes_io, 'io.StringIO': string_io,
        'struct.pack': s_pack, 'struct.unpack': s_unpack,
        'struct.calcsize': lambda it, st, a, k: one(
            st, struct_module.calcsize(a[0].v)),
        'bitstruct.pack': bs_pack, 'bitstruct.unpack': bs_unpack,
        'bitstruct.compile': bs_compile, 'bitstruct.byteswap': bs_byteswap,
        'time.time': fresh_value('time'),
        'humanfriendly.format_timespan': fresh_value('text', 'str'),
        'humanfriendly.format_size': fresh_value('text', 'str'),
        'logging.getLogger': pure('logger', 'object'),
        'logging.basicConfig': none,
        'contextlib.redirect_stdout': pure('redirect', 'object'),
        'textwrap.wrap': pure('wrap', 'seq'),
        'operator.itemgetter': pure('itemgetter'),
        'collections.defaultdict': lambda it, st, a, k: one(
            st, it.new(st, it.DICT, items=())),
    })
    it.constants.update({'os.SEEK_SET': 0, 'os.SEEK_CUR': 1,
                         'os.SEEK_END': 2, 'io.SEEK_SET': 0,
                         'io.SEEK_CUR': 1, 'io.SEEK_END': 2})
    it.methods.update({
        'join': m_join, 'format': m_format, 'pack': m_pack,
        'unpack': m_unpack, 'startswith': m_startswith, 'index': m_index,
        'count': m_count, 'bit_length': m_bit_length})
    for n in ('decode', 'strip', 'lower', 'upper', 'replace', 'rstrip',
              'lstrip', 'ljust', 'rjust', 'title', 'zfill'):
        it.methods[n] = pure_method(n, 'str')
    for n in ('split', 'splitlines', 'partition', 'rpartition', 'items',
              'keys', 'values', 'get', 'endswith', 'isdigit'):
        it.methods[n] = pure_method(n, 'seq' if n.startswith('split')
                                    else 'any')
    it.methods['encode'] = pure_method('encode', 'bytes')
    for n in ('debug', 'info', 'warning', 'error', 'exception',
              'setLevel'):
        it.methods[n] = nothing
    assert builtins
