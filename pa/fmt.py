"""Matching of written byte sequences against an expected grammar.

A written sequence is a tuple of parts (values.B).  It is first turned into
items: loops are summarised (what is appended for every element of a
sequence), and what one compressor produced is turned into the data it was
given.  Items:

    ('k', bytes)  ('size', n)  ('data', term)  ('each', seq)
    ('for', seq, [items of one element], atom)
    ('comp', kind, [items])  ('open', kind, items)  -- never flushed
    ('?', part)
"""

from sa import dom
from sa.dom import Lin
from .values import Acc, B, K, T, Tup, is_int, mkbytes, unwrap


class Mismatch(Exception):
    pass


def loop_of(it, key):
    for lk, info in it.loops.items():
        if key[:len(lk)] == lk:
            return lk, info
    return None, None


def mentions(v, a):
    c = v.__class__
    if c is Lin:
        return any(x == a for x, _ in v.t)
    if c is T:
        return any(mentions(x, a) for x in v.args)
    if c is B:
        return any(mentions(x, a) for x in v.parts)
    if c is Tup:
        return any(mentions(x, a) for x in v.items)
    if c is tuple or c is list:
        return any(mentions(x, a) for x in v)
    return False


def atom_deep(it, v, a, memo=None):
    """Is atom a mentioned by v, also inside terms that are atoms?"""
    if memo is None:
        memo = set()
    c = v.__class__
    if c is Lin:
        for x, _ in v.t:
            if x == a:
                return True
            if x in memo:
                continue
            memo.add(x)
            k = it.at.term_of.get(x)
            if k is not None and any(atom_deep(it, y, a, memo) for y in k):
                return True
        return False
    if c is T:
        return any(atom_deep(it, x, a, memo) for x in v.args)
    if c is B:
        return any(atom_deep(it, x, a, memo) for x in v.parts)
    if c is Tup:
        return any(atom_deep(it, x, a, memo) for x in v.items)
    if c is tuple or c is list:
        return any(atom_deep(it, x, a, memo) for x in v)
    return False


def index_atom(it, lk, info):
    for a, p in it.phis.items():
        if p['key'][:len(lk)] == lk and p['path'][-1] == info['var']:
            yield a, p


def summarise(it, st, acc):
    """The items a loop has appended."""
    lk, info = loop_of(it, acc.key)
    deltas = it.accs.get(acc.key, set())
    if info is None or info['var'] is None or info['breaks'] \
            or info['leaves'] or len(deltas) != 1:
        return [('?', acc)]
    (delta,) = deltas
    seq = info['seq']
    for a, p in index_atom(it, lk, info):
        if p['key'] == acc.key[:len(p['key'])]:
            break
    else:
        return [('?', acc)]
    start = p['init']
    body = items(it, st, delta)
    if start == 0 or is_int(start) and st.facts.eq0(start):
        return [('for', seq, body, a, 0)]
    return [('for', seq, body, a, start)]


def items(it, st, parts):
    out = []
    for p in parts:
        if p.__class__ is K:
            out.append(('k', p.v))
        elif p.__class__ is Acc:
            out.extend(summarise(it, st, p))
        elif p.__class__ is B:
            out.extend(items(it, st, p.parts))
        elif p.__class__ is T and p.op == 'SIZE':
            out.append(('size', p.args[0]))
        elif p.__class__ is T and p.op == 'comp':
            d = p.args[1]
            out.append(('part', p.args[0],
                        items(it, st, d.parts if d.__class__ is B else (d,))))
        elif p.__class__ is T and p.op == 'flush':
            out.append(('flush', p.args[0]))
        elif p.__class__ is T and p.op == 'joinacc':
            out.extend(summarise(it, st, p.args[0]))
        elif p.__class__ is T and p.op == 'join' and len(p.args) <= 2:
            s = p.args[-1]
            out.extend(joined(it, st, s))
        else:
            out.append(('data', p))
    return compress(it, st, merge(out))


def joined(it, st, s):
    """b''.join(s)"""
    if s.__class__ is T and s.op == 'list':
        r = []
        for x in s.args[0]:
            if x.__class__ is T and x.op == 'star':
                r.extend(joined(it, st, x.args[0]))
            elif x.__class__ is Acc:
                r.extend(summarise(it, st, x))
            else:
                r.extend(items(it, st, (x,)))
        return r
    return [('each', s)]


def elem_of(x, seq, a):
    """Is x the element of seq at the index that is atom a (or value a)?"""
    if x[0] != 'data':
        return False
    t = x[1]
    i = dom.atom(a) if a.__class__ is int and not isinstance(a, bool) else a
    return t.__class__ is T and t.op == 'elem' and len(t.args) == 2 \
        and t.args[0] == seq and t.args[1] == i


def merge(xs):
    """Loops that append just the elements of a sequence."""
    out = []
    for x in xs:
        if x[0] == 'for':
            _, seq, body, a, start = x
            s = unwrap(seq) if seq.__class__ in (B, T) else seq
            if len(body) == 1 and elem_of(body[0], s, a):
                if start == 0:
                    x = ('each', s)
                elif start == 1 and out and out[-1][0] == 'data' \
                        and out[-1][1].__class__ is T \
                        and out[-1][1].op == 'elem' \
                        and out[-1][1].args == (s, 0):
                    out.pop()
                    x = ('each', s)
            elif len(body) == 1 and body[0][0] == 'part':
                inst, inner = body[0][1], body[0][2]
                if len(inner) == 1 and elem_of(inner[0], s, a):
                    if start == 0:
                        x = ('part', inst, [('each', s)])
                    elif start == 1 and out and out[-1][0] == 'part' \
                            and out[-1][1] == inst \
                            and out[-1][2][-1][0] == 'data' \
                            and out[-1][2][-1][1] == T('elem', (s, 0)):
                        y = out.pop()
                        x = ('part', inst, y[2][:-1] + [('each', s)])
                else:
                    x = ('part', inst, merge([('for', seq, inner, a, start)]))
            elif body and all(y[0] == 'part' and y[1] == body[0][1]
                              for y in body):
                inner = [z for y in body for z in y[2]]
                x = ('part', body[0][1],
                     merge([('for', seq, inner, a, start)]))
        if x[0] == 'k' and out and out[-1][0] == 'k':
            out[-1] = ('k', out[-1][1] + x[1])
            continue
        out.append(x)
    return out


def compress(it, st, xs):
    out = []
    for x in xs:
        if x[0] == 'part' and out and out[-1][0] == 'part' \
                and out[-1][1] == x[1]:
            out[-1] = ('part', x[1], out[-1][2] + x[2])
        elif x[0] == 'flush':
            if out and out[-1][0] == 'part' and out[-1][1] == x[1]:
                y = out.pop()
                out.append(('comp', x[1], merge(y[2])))
            else:
                out.append(('comp', x[1], []))
        else:
            out.append(x)
    return out


def show(xs):
    out = []
    for x in xs:
        if x[0] in ('comp', 'part'):
            out.append('%s[%s]' % (x[1].v if x[0] == 'comp' else
                                   x[1].v + ' (not flushed)', show(x[2])))
        elif x[0] == 'k':
            out.append(repr(x[1]))
        elif x[0] == 'for':
            out.append('for each of %r: [%s]' % (x[1], show(x[2])))
        else:
            out.append('%s %r' % (x[0], x[1]))
    return ' '.join(out)


def same(it, st, a, b):
    if a == b:
        return True
    if is_int(a) and is_int(b):
        return st.facts.eq0(dom.sub(a, b))
    a, b = it.resolve(st, a), it.resolve(st, b)
    if a == b:
        return True
    if a.__class__ is T and b.__class__ is T and a.op == b.op \
            and len(a.args) == len(b.args):
        if all(same(it, st, x, y) for x, y in zip(a.args, b.args)):
            return True
    if it.kind(a) == 'bytes' and it.kind(b) == 'bytes':
        # Both may be empty.
        n, m = it.length(st, a), it.length(st, b)
        return st.facts.eq0(n) and st.facts.eq0(m)
    return False


def match(it, st, got, want, what):
    """Raise Mismatch unless items got are what is wanted."""
    got = list(got)
    i = 0
    for w in want:
        if w[0] in ('each', 'data') and (
                i >= len(got) or got[i][0] not in (w[0], 'for')):
            # Nothing, when what is expected is known to be empty.
            n = it.length(st, w[1])
            if n is not None and st.facts.eq0(n):
                continue
        if i >= len(got):
            raise Mismatch('%s ends before %s' % (what, describe(w)))
        g = got[i]
        i += 1
        if w[0] == 'k':
            if g[0] == 'k' and g[1].startswith(w[1]):
                if len(g[1]) > len(w[1]):
                    got.insert(i, ('k', g[1][len(w[1]):]))
                continue
        elif w[0] == 'size':
            if g[0] == 'size' and same(it, st, g[1], w[1]):
                continue
        elif w[0] == 'comp':
            if g[0] == 'comp' and g[1].v.split('#')[0] == w[1]:
                match(it, st, g[2], w[2], 'the compressed data')
                continue
        elif w[0] in ('each', 'data'):
            if g[0] == w[0] and same(it, st, g[1], w[1]):
                continue
        elif w[0] == 'for':
            if g[0] == 'for' and w[1](it, st, g):
                continue
        elif w[0] == 'test':
            if w[1](it, st, g):
                continue
        raise Mismatch('%s has %s where %s is expected' % (
            what, describe(g), describe(w)))
    if i < len(got):
        raise Mismatch('%s has %s after its end' % (what, describe(got[i])))


def describe(x):
    names = {'size': 'a size', 'k': 'constant %r',
             'data': 'data %r', 'each': 'all elements of %r'}
    if x[0] in ('comp', 'part'):
        return '%s data of %s' % ('compressed' if x[0] == 'comp' else
                                  'not flushed', x[1] if isinstance(
                                      x[1], str) else x[1].v)
    if x[0] == 'for':
        return 'a repetition'
    if x[0] == 'test':
        return x[2]
    t = names.get(x[0], '%r')
    return t % (x[1],) if '%' in t else t


assert mkbytes
