"""The readers of patches (apply.py, info.py): they must take the patch apart
as its format says, and write what the format says.

The decompressed data is a monitor (Stream): what may be read next depends on
what has been read, every number read gets a meaning, and diff and extra data
read remembers where in the new image it belongs and which part of the old
image belongs to it."""

import ast

from sa import dom
from sa.ir import AnalysisBroken
from . import fmt
from .container import COMPRESSIONS, DATA_FORMATS, TYPES, split
from .interp import Interp, Model
from .lib import one
from .values import (EMPTY, FALSE, NONE, TRUE, B, Code, K, Ref, T, Tup,
                     as_bytes, is_int, unwrap)

FROM, PATCH = T('from', (), 'bytes'), T('patch', (), 'bytes')
HEADERS = {
    'sequential': ['to size'],
    'hdiffpatch': ['to size', 'patch size'],
    'in-place': ['memory size', 'segment size', 'shift size', 'from size',
                 'to size'],
}
NAMES = {v: k for k, v in TYPES.items()}


def le(it, st, a, b):
    """[(state, a <= b)]"""
    return split(it, st, dom.sub(a, b))


class Env:
    """What is being analysed."""

    def __init__(self, kind, memory=False):
        self.kind = kind
        self.memory = memory


def header(it, st):
    """(type, compression) of the patch in st, None for what is open."""
    r = []
    for pos, w in ((1, 3), (4, 4)):
        x = it.term('bitsof', (T('slice', (PATCH, 0, 1), 'bytes'), pos, w,
                               K('u')), 0, 2 ** w - 1)
        lo, hi = st.facts.bounds(x)
        r.append(lo if lo == hi else None)
    return r


def patch_type(it, st):
    t, _ = header(it, st)
    return NAMES.get(t)


def unpack_size(it, st, args, kw):
    out = []
    r = args[0]
    if r.__class__ is not Ref:
        raise AnalysisBroken('a number is read from something unknown')
    it.may_throw(st)
    it.throw(st.copy(), it.new_exc(st, Code('ext', 'detools.Error')))
    cls = st.cls(r)
    if cls is it.STREAM:
        return number(it, st)
    if r != st.ghost['fpatch']:
        raise AnalysisBroken('a number is read from something unknown')
    i = st.ghost['header']
    kind = patch_type(it, st)
    names = HEADERS.get(kind, [])
    it.oblige('rule:header', kind)
    if i.__class__ is not int or i >= len(names):
        it.alarm('rule:header', 'more numbers are read from the header than '
                 'there are')
        return []
    st.ghost['header'] = i + 1
    v = it.fresh('header:' + names[i])
    st.ghost[names[i]] = v
    st.put(r, 'pos', it.fresh('position', 1))
    if it.env.memory:
        well_formed(it, st, names[i], v)
    out.append((st, v))
    return out


def well_formed(it, st, name, v):
    f = st.facts
    f.add_le0(dom.sub(1 if name == 'segment size' else 0, v))
    if name == 'shift size':
        f.add_le0(dom.sub(v, st.ghost['memory size']))
        f.add_le0(dom.sub(st.ghost['segment size'], v))


def unpack_with_length(it, st, args, kw):
    return [(s, Tup((v, T('bytes of number', (it.nonce('n'),)))))
            for s, v in unpack_size(it, st, args, kw)]


def number(it, st):
    """A number is read from the decompressed data."""
    at = st.ghost['#at'].v
    it.oblige('rule:order', at)
    st.ghost['#eof'] = FALSE
    g = st.ghost
    out = []

    def become(s, v, nxt):
        s.ghost['#at'] = K(nxt)
        out.append((s, v))

    if at in ('diff data', 'extra data'):
        if not it.check(st.facts.eq0(g['rest']), 'rule:order',
                        'a number is read where there is %s' % at):
            return []
        at = 'extra' if at == 'diff data' else 'adjustment'
    if at == 'diff' and it.env.kind == 'in-place':
        for s, end in le(it, st, segment_end(it, st), g['read']):
            out.extend(number_at(it, s, 'data format size' if end
                                 else 'diff'))
        return out
    return number_at(it, st, at)


def segment_end(it, st):
    return st.ghost['segment end']


def number_at(it, st, at):
    v = it.fresh('number:' + at)
    out = []

    def become(s, nxt):
        s.ghost['#at'] = K(nxt)
        out.append((s, v))

    if at == 'data format size':
        if it.env.kind == 'in-place':
            st = new_segment(it, st)
        for s, none in le(it, st, v, 0):
            if none:
                become(s, 'diff')
            else:
                s.ghost['df size'] = v
                become(s, 'data format')
    elif at == 'data format':
        st.ghost['df'] = v
        st.ghost['rest'] = st.ghost['df size']
        become(st, 'data format patch')
    elif at in ('diff', 'extra'):
        for s, ok in le(it, st, 0, v):
            s.ghost['rest'] = v if ok else 0
            become(s, at + ' data' if ok else 'bad')
    elif at == 'adjustment':
        st.ghost['from'] = dom.add(st.ghost['from'], v)
        become(st, 'diff')
    elif at == 'bad':
        it.alarm('rule:limits', 'a negative size is accepted')
    else:
        it.alarm('rule:order', 'a number is read where there is %s' % at)
    return out


def new_segment(it, st):
    g = st.ghost
    seg = g['segment size']
    o = g['read']
    end = dom.add(o, seg)
    g['segment start'] = o
    (s1, g['segment end']), = lib_min(it, st, end, g['to size'])
    (s1, g['from']), = lib_max(it, st, end, g['shift size'])
    return st


def lib_min(it, st, a, b):
    v = it.fresh('min')
    st.facts.add_le0(dom.sub(v, a))
    st.facts.add_le0(dom.sub(v, b))
    return [(st, v)]


lib_max = lib_min


def data(it, st, n):
    """n bytes of the decompressed data are read: [(state, value)]"""
    at = st.ghost['#at'].v
    g = st.ghost
    out = []
    if not is_int(n):
        raise AnalysisBroken('data of an unknown size is read')
    for s, none in le(it, st, n, 0):
        if none:
            if at == 'all' and fmt_same(it, s, n, s.ghost['patch size']):
                s.ghost['#at'] = K('end')
            out.append((s, EMPTY))
            continue
        it.throw(s.copy(), it.new_exc(s, Code('ext', 'detools.Error')))
        g = s.ghost
        g['#eof'] = FALSE
        it.oblige('rule:order', at)
        if at == 'bad':
            it.alarm('rule:limits', 'a negative size is accepted')
            continue
        if at == 'all':
            it.check(fmt_same(it, s, n, g['patch size']), 'rule:order',
                     'not all of the hdiffpatch data is read')
            g['#at'] = K('end')
            out.append((s, whole(it, s, T('hdiff patch', (), 'bytes'), n)))
            continue
        if at not in ('data format patch', 'diff data', 'extra data'):
            it.alarm('rule:order', 'data is read where there is %s'
                     % describe(at))
            continue
        if not it.check(s.facts.le0(dom.sub(n, g['rest'])), 'rule:order',
                        'more data is read than there is %s' % at):
            continue
        if at == 'data format patch':
            if not it.check(s.facts.eq0(dom.sub(n, g['rest'])),
                            'rule:order', 'not all of the data format patch '
                            'is read'):
                continue
            g['#at'] = K('diff')
            out.append((s, whole(it, s, T('df patch', (), 'bytes'), n)))
            continue
        r = g['read']
        if it.env.kind == 'in-place':
            end, limit = g['segment end'], 'the segment'
        else:
            end, limit = g['to size'], 'the new image'
        it.check(s.facts.le0(dom.sub(dom.add(r, g['rest']), end)),
                 'rule:limits', 'the size of the %s is not checked against '
                 'the size of %s before it is used' % (at, limit))
        a = (r, n) + ((g['from'],) if at == 'diff data' else ())
        v = T(at, a, 'bytes')
        g['rest'] = dom.sub(g['rest'], n)
        g['read'] = dom.add(r, n)
        if at == 'diff data':
            g['from'] = dom.add(g['from'], n)
        out.append((s, whole(it, s, v, n)))
    return out


def whole(it, st, v, n):
    try:
        st.facts.add_eq0(dom.sub(it.length(st, v), n))
    except dom.Infeasible:
        pass
    return B((v,))


def describe(at):
    return {'diff': 'the size of the diff data',
            'adjustment': 'the adjustment'}.get(at, 'the ' + at)


def fmt_same(it, st, a, b):
    return is_int(a) and is_int(b) and st.facts.eq0(dom.sub(a, b))


class Stream(Model):
    """A PatchReader."""
    name = 'patch reader'

    def m_read(self, it, st, r, args, kw):
        return data(it, st, args[0])

    m_decompress = m_read

    def a_eof(self, it, st, r):
        out = []
        for v in (TRUE, FALSE):
            s = st.copy()
            s.ghost['#eof'] = v
            out.append((s, v))
        return out


def patch_reader(it, st, args, kw):
    """PatchReader(fpatch, compression)"""
    comp = it.resolve(st, args[1])
    kind, number_ = patch_type(it, st), header(it, st)[1]
    it.check(args[0] == st.ghost['fpatch']
             and st.ghost['header'] == len(HEADERS.get(kind, [0])),
             'rule:header', 'the compressed data is not read from right '
             'after the header')
    it.check(comp.__class__ is K and comp.v in COMPRESSIONS
             and COMPRESSIONS[comp.v] == number_, 'rule:header',
             'the compression used is not that of the header')
    st.ghost['#at'] = K('all' if it.env.kind == 'hdiffpatch'
                        else 'data format size')
    return one(st, it.new(st, it.STREAM))


def create_readers(it, st, args, kw):
    g = st.ghost
    number_, ffrom, patch, n = args
    it.check(g.get('df') is not None
             and fmt_same(it, st, number_, g['df']),
             'rule:data format', 'the data format is not the one read')
    it.check(unwrap(patch) == T('df patch', (), 'bytes'),
             'rule:data format', 'the data format patch is not the one read')
    it.check(ffrom == st.ghost['ffrom'], 'rule:data format',
             'the data format is not applied to the from image')
    it.check(fmt_same(it, st, n, g['to size']), 'rule:data format',
             'the size of the new image given to the data format is wrong')
    it.may_throw(st)
    it.throw(st.copy(), it.new_exc(st, Code('ext', 'detools.Error')))
    g['#df'] = TRUE

    def f(name):
        return it.new(st, it.FILE, content=B((T(name, (), 'bytes'),)),
                      pos=it.fresh('position', 0))
    dd = it.new(st, it.FILE, content=B((T('dfdiff', (), 'bytes'),)), pos=0)
    return one(st, Tup((dd, f('dffrom'))))


def add_bytes(it, st, args, kw):
    a, b = (unwrap(as_bytes(x)) for x in args)
    n, m = it.length(st, a), it.length(st, b)
    bad = st.copy()
    it.throw(bad, it.new_exc(bad, Code('builtin', 'ValueError')))
    try:
        st.facts.add_eq0(dom.sub(n, m))
    except dom.Infeasible:
        return []
    if st.facts.eq0(n):
        return one(st, EMPTY)
    terms = []
    for x in (a, b):
        terms.extend(x.args if x.__class__ is T and x.op == 'sum' else [x])
    v = T('sum', sorted(terms, key=lambda x: (repr(x).split('(')[0], repr(x))),
          'bytes')
    return one(st, whole(it, st, v, n))


def sliced(x, whole_):
    """(lo, hi) when x is whole_[lo:hi]."""
    if x.__class__ is T and x.op == 'slice' and x.args[0] == whole_:
        return x.args[1], x.args[2]
    return None


def check_output(it, st, v, at, n):
    """Is v what belongs at position at of the new image?"""
    g = st.ghost
    v = unwrap(v)
    terms = list(v.args) if v.__class__ is T and v.op == 'sum' else [v]
    df = g.get('#df') == TRUE
    main = [x for x in terms if x.__class__ is T
            and x.op in ('diff data', 'extra data')]
    if not it.check(len(main) == 1, 'rule:output', 'what is written is not '
                    'made of one piece of patch data'):
        return
    m = main[0]
    terms.remove(m)
    it.check(fmt_same(it, st, m.args[0], at)
             and fmt_same(it, st, m.args[1], n), 'rule:output',
             'patch data is written to the wrong place')
    if m.op == 'diff data':
        src = it.env.source(st)
        old = [x for x in terms if sliced_any(it, st, x, src)]
        if it.check(len(old) == 1, 'rule:output',
                    'old data is not added to the diff data'):
            terms.remove(old[0])
            lo, hi = sliced_any(it, st, old[0], src)
            it.check(fmt_same(it, st, lo, m.args[2])
                     and fmt_same(it, st, hi, dom.add(m.args[2], n)),
                     'rule:output', 'the wrong part of the old data is '
                     'added to the diff data')
    if df:
        extra = [x for x in terms if sliced_any(
            it, st, x, T('dfdiff', (), 'bytes'))]
        if it.check(len(extra) == 1, 'rule:output', 'the diff of the data '
                    'format is not added'):
            terms.remove(extra[0])
            lo, hi = sliced_any(it, st, extra[0], T('dfdiff', (), 'bytes'))
            it.check(fmt_same(it, st, lo, at)
                     and fmt_same(it, st, hi, dom.add(at, n)),
                     'rule:output', 'the wrong part of the diff of the data '
                     'format is added')
    it.check(not terms, 'rule:output', 'something else is added to what is '
             'written')


def sliced_any(it, st, x, src):
    if x == src:
        return 0, it.length(st, x)
    return sliced(x, src)


def to_write(it, st, r, what, *args):
    """Hook of the to file."""
    if what != 'write':
        if what == 'seek' or what == 'read':
            raise AnalysisBroken('the to file is not just written')
        return None
    v = as_bytes(args[0])
    if v is None:
        raise AnalysisBroken('something unknown is written')
    n = it.length(st, v)
    g = st.ghost
    it.may_throw(st)
    if it.env.kind == 'hdiffpatch':
        x = unwrap(v)
        d = T('hdiff patch', (), 'bytes')
        if st.facts.le0(g['patch size']):
            d = EMPTY
        it.check(x.__class__ is T and x.op == 'hdiff applied' and all(
            fmt.same(it, st, y, z) for y, z in zip(x.args, (FROM, d))),
                 'rule:output', 'what is written is not what the hdiffpatch '
                 'data gives for the old data')
        g['written'] = dom.add(g['written'], n)
        return one(st, n)
    out = []
    for s, none in le(it, st, n, 0):
        if not none:
            w = s.ghost['written']
            it.check(s.facts.le0(dom.sub(dom.add(w, n),
                                         s.ghost['to size'])),
                     'rule:limits', 'more is written than the size of the '
                     'new image')
            check_output(it, s, v, w, n)
            s.ghost['written'] = dom.add(w, n)
        out.append((s, n))
    return out


def base():
    it = Interp()
    it.STREAM = Stream()
    it.env = None
    for q in ('detools.common.unpack_size',):
        it.overrides[q] = unpack_size
    it.overrides['detools.common.unpack_size_with_length'] = \
        unpack_with_length
    it.externals['detools.bsdiff.add_bytes'] = add_bytes
    it.externals['detools.hdiffpatch.apply_patch'] = hdiff_apply
    it.overrides['detools.data_format.create_readers'] = create_readers
    it.overrides['detools.apply.PatchReader'] = patch_reader
    return it


def interp():
    it = base()
    for n in ('crle', 'none', 'heatshrink', 'zstd', 'lz4'):
        it.load('detools.compression.' + n)
    it.load('detools.apply')
    return it


def hdiff_apply(it, st, args, kw):
    it.may_throw(st)
    return one(st, B((T('hdiff applied', [unwrap(as_bytes(x)) for x in args],
                        'bytes'),)))


def start(it, st):
    g = st.ghost
    g['header'] = 0
    g['#at'] = K('header')
    g['#eof'] = FALSE
    g['#df'] = FALSE
    for n in ('read', 'written', 'from', 'rest'):
        g[n] = 0
    g['fpatch'] = it.named(st, 'fpatch', it.FILE, content=B((PATCH,)), pos=0)
    kind = it.term('bitsof', (T('slice', (PATCH, 0, 1), 'bytes'), 1, 3,
                              K('u')), 0, 7)
    st.facts.add_eq0(dom.sub(kind, TYPES[it.env.kind]))
    st.facts.add_le0(dom.sub(2, it.length(st, PATCH)))


def apply_to(it, kind):
    """apply_patch() with a patch of the kind."""
    it.env = Env(kind)
    it.env.source = lambda st: T('dffrom', (), 'bytes') \
        if st.ghost['#df'] == TRUE else FROM

    def setup(st):
        start(it, st)
        g = st.ghost
        g['ffrom'] = it.named(st, 'ffrom', it.FILE, content=B((FROM,)),
                              pos=0)
        fto = it.named(st, 'fto', it.FILE, content=EMPTY, pos=NONE,
                       hook=Code('hook', 'to', to_write))
        return [g['ffrom'], g['fpatch'], fto], {}
    seen = set()
    for k, st, v in it.run('detools.apply.apply_patch', setup):
        if k != 'ret':
            continue
        it.line = WHERE
        seen.add(NAMES_C.get(header(it, st)[1]))
        finish(it, st, v)
    it.line = WHERE
    for c in COMPRESSIONS:
        it.check(c in seen, 'rule:cases', '%s patches with compression %s '
                 'cannot be applied' % (kind, c))


NAMES_C = {v: k for k, v in COMPRESSIONS.items()}
WHERE = ('detools/apply.py', 0, 'apply_patch')


def finish(it, st, v):
    g = st.ghost
    n = g['to size']
    kind = it.env.kind
    if kind == 'hdiffpatch':
        it.check(st.facts.eq0(n) or g['#at'] == K('end'), 'rule:complete',
                 'hdiffpatch: success without reading all of the patch')
        it.check(fmt_same(it, st, v, g['written'])
                 or st.facts.eq0(n) and v == 0, 'rule:complete',
                 'hdiffpatch: the number of bytes written is not returned')
        return
    it.check(fmt_same(it, st, v, n), 'rule:complete',
             'the size of the new image is not what is returned')
    it.check(fmt_same(it, st, g['written'], n), 'rule:complete',
             'success without having written all of the new image')
    it.check(fmt_same(it, st, g['written'], g['read']), 'rule:complete',
             'success without having written all data of the patch')
    if not st.facts.eq0(n):
        it.check(g['#at'] == K('diff'), 'rule:complete',
                 'success in the middle of the patch')
        it.check(g['#eof'] == TRUE, 'rule:complete',
                 'success without the end of the patch data')


def sequential(it):
    apply_to(it, 'sequential')


def hdiffpatch(it):
    apply_to(it, 'hdiffpatch')


assert ast and FALSE and DATA_FORMATS
