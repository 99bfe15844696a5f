"""Abstract models of the analyser intrinsics and of the C library."""

from . import ir
from .ir import AnalysisBroken
from .dom import Infeasible, Lin, add, sub, scale, atom
from .interp import (Interp, Ptr, NULLP, Fn, Bad, Opaque, Cond, EMPTY, Obj)


def num(it, st, v, n, ins):
    """List of (state, value) with value the unsigned canonical form."""
    v = it.as_int(st, v, n, ins)
    return it.canon(st, v, n, False)


def m_int(it, st, args, ins):
    return [(st, it.fresh('int', 32, signed=True))]


def m_size(it, st, args, ins):
    return [(st, it.fresh_range('size', 0, (1 << 63) - 1))]


def m_range(it, st, args, ins):
    lo, hi = args
    if lo.__class__ is not int or hi.__class__ is not int:
        raise AnalysisBroken('sa_range needs constants')
    return [(st, it.fresh_range('range', lo, hi))]


def m_input(it, st, args, ins):
    out = []
    for s, n in num(it, st, args[0], 64, ins):
        o = it.new_obj(s, n, 'unknown', 'input', ro=True, site='patch')
        out.append((s, Ptr(o, 0)))
    return out


def m_no_status(it, st, args, ins):
    it.status = False
    return [(st, None)]


def m_ints(it, st, args, ins):
    """An array of 32 bits integers from 0 to a largest one."""
    out = []
    for s, n in num(it, st, args[0], 64, ins):
        for q, hi in num(it, s, args[1], 64, ins):
            o = it.new_obj(q, scale(n, 4), 'unknown', 'ext', ro=True,
                           site='ints')
            it.ints[o] = hi
            out.append((q, Ptr(o, 0)))
    return out


def m_memcmp(it, st, args, ins):
    out = []
    for s, n in num(it, st, args[2], 64, ins):
        for p in args[:2]:
            if not (n.__class__ is int and n == 0):
                it.check_access(s, p, n, ins, False)
        out.append((s, it.fresh_range('memcmp', -(1 << 31), (1 << 31) - 1)))
    return out


def m_release(it, st, args, ins):
    p = args[0]
    if p.__class__ is Ptr and p.obj in st.mem:
        kill_object(it, st, p.obj)
    return [(st, None)]


def kill_object(it, st, oid):
    """The object disappears: pointers to it become stale."""
    st.mem.pop(oid, None)
    for k in list(st.mem):
        o = st.mem[k]
        for off, (w, v) in list(o.cells.items()):
            if v.__class__ is Ptr and v.obj == oid:
                st.wobj(k).cells[off] = (w, Bad('stale'))


def m_fill(it, st, args, ins):
    out = []
    for s, n in num(it, st, args[1], 64, ins):
        it.havoc(s, args[0], n, ins)
        out.append((s, None))
    return out


def m_fill_from(it, st, args, ins):
    tag = it.cstring(st, args[2]) or '?'
    out = []
    for s, n in num(it, st, args[1], 64, ins):
        it.havoc(s, args[0], n, ins, frozenset([tag]))
        out.append((s, None))
    return out


def m_watch(it, st, args, ins):
    it.watch(st, args[0], args[1])
    return [(st, None)]


def m_rich(it, st, args, ins):
    it.rich = it.at.rich = it.at.exact = True
    return [(st, None)]


def m_uninit(it, st, args, ins):
    out = []
    for s, n in num(it, st, args[0], 64, ins):
        s = s.copy()
        o = it.new_obj(s, n, 'uninit', 'stack', site='buffer')
        out.append((s, Ptr(o, 0)))
    return out


def m_forget(it, st, args, ins):
    p = args[0]
    o = st.wobj(p.obj)
    o.cells.clear()
    o.default = 'uninit'
    o.pre = 0
    return [(st, None)]


def m_within(it, st, args, ins):
    p, n, b = args
    if p.__class__ is not Ptr or b.__class__ is not Ptr or p.obj != b.obj \
            or p.obj not in st.mem:
        return [(st, it.fresh_range('within', 0, 1))]
    out = []
    for s, n in num(it, st, n, 64, ins):
        end = sub(add(p.off, n), s.mem[p.obj].size)
        ok = s.facts.le0(scale(p.off, -1)) and s.facts.le0(end)
        out.append((s, 1 if ok else it.fresh_range('within', 0, 1)))
    return out


def m_lzma_open(it, st, args, ins):
    v = lzma_state(it, st, args[0], ins)
    return [(st, int(v == Fn('%lzma-open')))]


def m_lzma_havoc(it, st, args, ins):
    p = args[0]
    it.havoc(st, p, 136, ins)
    put(it, st, p, 56, 'p', Fn('%lzma-open'), ins)
    return [(st, None)]


def m_released(it, st, args, ins):
    it.oblige('rule:everything is released', ins)
    for o in st.mem.values():
        if o.kind == 'heap':
            it.alarm('rule', st, ins, 'everything is released: memory '
                     'allocated at %s' % o.site)
        for c in o.cells.values():
            if c[1] == Fn('%lzma-open') and not o.id.startswith('@tpl'):
                it.alarm('rule', st, ins,
                         'everything is released: the decoder')
    return [(st, None)]


def m_use(it, st, args, ins):
    out = []
    for s, n in num(it, st, args[1], 64, ins):
        if not (n.__class__ is int and n == 0):
            it.check_access(s, args[0], n, ins, False)
            it.check_init(s, args[0], n, ins)
        out.append((s, None))
    return out


def truth_states(it, st, c, truth):
    return it.assume(st, c, truth)


def m_check(it, st, args, ins):
    c = args[0]
    rule = it.cstring(st, args[1]) or 'property'
    it.oblige('rule:' + rule, ins)
    r = it.decide(st, c)
    if r is True:
        return [(st, None)]
    if r is False:
        it.alarm('rule', st, ins, rule)
        return [(st, None)]
    bad = truth_states(it, st, c, False)
    if bad:
        it.alarm('rule', st, ins, rule)
    return [(s, None) for s in truth_states(it, st, c, True)]


def m_assume(it, st, args, ins):
    return [(s, None) for s in truth_states(it, st, args[0], True)]


def m_stop(it, st, args, ins):
    return []


def m_cut(it, st, args, ins):
    """sa_cut(on): loops use the invariant sa_inv_check/sa_inv_havoc."""
    it.cut_on = bool(args[0])
    return [(st, None)]


def m_objsize(it, st, args, ins):
    """Size of the object p points to the start of (0 for null)."""
    p = args[0]
    if p.__class__ is not Ptr:
        it.alarm('memory', st, ins, 'pointer is not valid')
        return []
    if p.obj is None:
        return [(st, 0)]
    if p.obj not in st.mem:
        it.alarm('memory', st, ins, 'pointer is not valid')
        return []
    return [(st, st.mem[p.obj].size)]


def m_heap(it, st, args, ins):
    """An allocated object with initialised contents."""
    out = []
    for s, n in num(it, st, args[0], 64, ins):
        s = s.copy()
        o = it.new_obj(s, n, 'unknown', 'heap', site='heap')
        out.append((s, Ptr(o, 0)))
    return out


def m_same(it, st, args, ins):
    """Whether two pointers are equal (both are valid)."""
    a, b = args
    if a == b:
        return [(st, 1)]
    if a.__class__ in (Ptr, Fn) and b.__class__ in (Ptr, Fn):
        r = it.ptr_cmp(st, 'eq', a, b)
        if r is not None:
            return [(st, int(r))]
    return [(st, it.fresh_range('same', 0, 1))]


def m_control(it, st, args, ins):
    p = args[0]
    if p.__class__ is Ptr and p.off.__class__ is int:
        it.control.add((p.obj, p.off))
    return [(st, None)]


def m_plain(it, st, args, ins):
    p = args[0]
    if p.__class__ is Ptr and p.off.__class__ is int:
        it.plain.add((p.obj, p.off))
        it.control.discard((p.obj, p.off))
    return [(st, None)]


# ---------------------------------------------------------------- libc

def m_malloc(it, st, args, ins):
    f, line = it.where(ins)
    out = []
    for s, n in num(it, st, args[0], 64, ins):
        s2 = s.copy()
        o = it.new_obj(s2, n, 'uninit', 'heap', site='%s:%d' % (
            f.name if f else '?', line))
        out.append((s2, Ptr(o, 0)))
        s3 = s.copy()
        out.append((s3, NULLP))
    return out


def m_free(it, st, args, ins):
    p = args[0]
    it.oblige('release', ins)
    if p.__class__ is Ptr and p.obj is None:
        return [(st, None)]
    if p.__class__ is Bad:
        it.alarm('memory', st, ins, 'release of memory that is already '
                 'released')
        return [(st, None)]
    if p.__class__ is not Ptr:
        it.alarm('memory', st, ins, 'release of an unknown pointer')
        return [(st, None)]
    o = st.mem.get(p.obj)
    if o is None or 'dead' in o.tags:
        it.alarm('memory', st, ins, 'release of memory that is already '
                 'released')
        return [(st, None)]
    if o.kind != 'heap' or st.facts.const(p.off) != 0:
        it.alarm('memory', st, ins, 'release of something not allocated')
        return [(st, None)]
    kill_object(it, st, p.obj)
    return [(st, None)]


def m_memcpy(it, st, args, ins):
    out = []
    for s, n in num(it, st, args[2], 64, ins):
        out.extend((q, args[0]) for q in it.memcpys(s, args[0], args[1], n,
                                                    ins))
    return out


def m_memset(it, st, args, ins):
    out = []
    for s, n in num(it, st, args[2], 64, ins):
        out.extend((q, args[0]) for q in it.memsets(s, args[0], args[1], n,
                                                    ins))
    return out


# ---------------------------------------------------------------- lzma
# struct lzma_stream: next_in 0, avail_in 8, total_in 16, next_out 24,
# avail_out 32, total_out 40, allocator 48, internal 56.

def cell(it, st, p, off, n, ins):
    return it.load(st, Ptr(p.obj, add(p.off, off)),
                   ir.layout(ir.Ty('ptr') if n == 'p' else ir.Ty('int', n)),
                   ins)


def put(it, st, p, off, n, v, ins):
    it.store(st, Ptr(p.obj, add(p.off, off)),
             ir.layout(ir.Ty('ptr') if n == 'p' else ir.Ty('int', n)), v, ins)


def m_lzma_init(it, st, args, ins):
    """lzma_alone_decoder(strm, memlimit)."""
    p = args[0]
    out = []
    s = st.copy()
    put(it, s, p, 56, 'p', Fn('%lzma-open'), ins)
    out.append((s, 0))
    s = st.copy()
    cell(it, s, p, 56, 'p', ins)
    out.append((s, 5))
    return out


def lzma_state(it, st, p, ins):
    v = cell(it, st, p, 56, 'p', ins)
    return v


def m_lzma_code(it, st, args, ins):
    p = args[0]
    it.oblige('decoder', ins)
    if lzma_state(it, st, p, ins) != Fn('%lzma-open'):
        it.alarm('memory', st, ins, 'decoder used when it is not open')
        return [(st, 11)]
    ni = cell(it, st, p, 0, 'p', ins)
    no = cell(it, st, p, 24, 'p', ins)
    out = []
    for s, ai in num(it, st, cell(it, st, p, 8, 64, ins), 64, ins):
        for s2, ao in num(it, s, cell(it, s, p, 32, 64, ins), 64, ins):
            for used_in in (ai,):
                out.extend(lzma_step(it, s2.copy(), p, ni, ai, no, ao, ins))
    return out


def lzma_step(it, s, p, ni, ai, no, ao, ins):
    if not (ai.__class__ is int and ai == 0):
        it.check_access(s, ni, ai, ins, False)
        it.check_init(s, ni, ai, ins)
    if not (ao.__class__ is int and ao == 0):
        it.havoc(s, no, ao, ins, it.region_deps(s, ni, ai))
    d = EMPTY
    u = it.fresh_range('lzma_in', 0, (1 << 63) - 1, d)
    w = it.fresh_range('lzma_out', 0, (1 << 63) - 1, d)
    out = []
    try:
        s.facts.add_le0(sub(u, ai))
        s.facts.add_le0(sub(w, ao))
    except Infeasible:
        return []
    for ret in ('ok', 'err'):
        s2 = s.copy()
        if ni.__class__ is Ptr:
            put(it, s2, p, 0, 'p', Ptr(ni.obj, add(ni.off, u)), ins)
        put(it, s2, p, 8, 64, sub(ai, u), ins)
        if no.__class__ is Ptr:
            put(it, s2, p, 24, 'p', Ptr(no.obj, add(no.off, w)), ins)
        put(it, s2, p, 32, 64, sub(ao, w), ins)
        put(it, s2, p, 16, 64, it.fresh('total', 64), ins)
        put(it, s2, p, 40, 64, it.fresh('total', 64), ins)
        if ret == 'ok':
            out.append((s2, it.fresh_range('lzma_ret', 0, 1)))
        else:
            out.append((s2, it.fresh_range('lzma_ret', 2, 12)))
    return out


def m_lzma_end(it, st, args, ins):
    p = args[0]
    it.oblige('release', ins)
    v = lzma_state(it, st, p, ins)
    if v == Fn('%lzma-open'):
        put(it, st, p, 56, 'p', NULLP, ins)
    elif not (v.__class__ is Ptr and v.obj is None):
        it.alarm('memory', st, ins, 'decoder ended when it was never set up')
    return [(st, None)]


MODELS = {
    'sa_int': m_int,
    'sa_size': m_size,
    'sa_range': m_range,
    'sa_input': m_input,
    'sa_ints': m_ints,
    'sa_no_status': m_no_status,
    'memcmp': m_memcmp,
    'sa_release': m_release,
    'sa_fill': m_fill,
    'sa_use': m_use,
    'sa_fill_from': m_fill_from,
    'sa_watch': m_watch,
    'sa_forget': m_forget,
    'sa_uninit': m_uninit,
    'sa_rich': m_rich,
    'sa_within': m_within,
    'sa_lzma_open': m_lzma_open,
    'sa_lzma_havoc': m_lzma_havoc,
    'sa_released': m_released,
    'sa_check': m_check,
    'sa_assume': m_assume,
    'sa_stop': m_stop,
    'sa_control': m_control,
    'sa_plain': m_plain,
    'sa_cut': m_cut,
    'sa_objsize': m_objsize,
    'sa_heap': m_heap,
    'sa_same': m_same,
    'malloc': m_malloc,
    'free': m_free,
    'memcpy': m_memcpy,
    'memmove': m_memcpy,
    'memset': m_memset,
    'lzma_alone_decoder': m_lzma_init,
    'lzma_code': m_lzma_code,
    'lzma_end': m_lzma_end,
}
