"""Compile C sources of /repo to LLVM IR and load the IR into Python objects.

Nothing of /repo is executed: clang is only used as a front end (parser,
preprocessor, type checker), and its unoptimised IR is what the analyses in
this directory read.
"""

import os
import re
import subprocess
import tempfile

CLANG = '/usr/bin/clang-18'
LINK = '/usr/bin/llvm-link-18'
if not os.path.exists(LINK):
    LINK = '/usr/bin/llvm-link'


class AnalysisBroken(Exception):
    """The analysis cannot be carried out (anchor missing, cannot parse)."""


# ---------------------------------------------------------------- types

class Ty:
    __slots__ = ('k', 'n', 'elem', 'fields', 'offs', 'size', 'align', 'name')

    def __init__(self, k, n=0, elem=None, fields=None, name=None):
        self.k = k
        self.n = n
        self.elem = elem
        self.fields = fields
        self.name = name
        self.offs = None
        self.size = None
        self.align = None

    def __repr__(self):
        return self.name or ('%s%d' % (self.k, self.n))


def layout(t):
    if t.size is not None:
        return t
    if t.k == 'int':
        b = (t.n + 7) // 8
        p = 1
        while p < b:
            p *= 2
        t.size = t.align = p
    elif t.k == 'ptr':
        t.size = t.align = 8
    elif t.k == 'float':
        t.size = t.align = t.n // 8
    elif t.k == 'void' or t.k == 'opaque':
        t.size, t.align = 0, 1
    elif t.k == 'arr':
        layout(t.elem)
        t.size = t.n * t.elem.size
        t.align = t.elem.align
    elif t.k == 'struct':
        off = 0
        al = 1
        t.offs = []
        for f in t.fields:
            layout(f)
            a = 1 if t.n else f.align
            off = (off + a - 1) // a * a
            t.offs.append(off)
            off += f.size
            al = max(al, a)
        t.size = (off + al - 1) // al * al
        t.align = al
    else:
        raise AnalysisBroken('layout of %r' % t.k)
    return t


# ---------------------------------------------------------------- operands
# int             constant
# ('r', name)     register
# ('g', name)     global address
# ('gep', op, off)
# None            null pointer
# UNDEF

class _Undef:
    def __repr__(self):
        return 'undef'


UNDEF = _Undef()
NULL = None


class Instr:
    __slots__ = ('op', 'dst', 'ty', 'a', 'b', 'x', 'line', 'flags', 'fn',
                 'var')

    def __init__(self, op, dst):
        self.op = op
        self.dst = dst
        self.ty = None
        self.a = None
        self.b = None
        self.x = None
        self.line = 0
        self.flags = ''
        self.fn = None
        self.var = None

    def __repr__(self):
        return '%s %s %s %s %s' % (self.dst, self.op, self.a, self.b, self.x)


class Function:
    def __init__(self, name):
        self.name = name
        self.params = []      # (type, name)
        self.ret = None
        self.blocks = {}
        self.order = []
        self.file = None
        self.line = 0
        self.headers = None
        self.rpo = None
        self.livein = None
        self.callive = None


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.functions = {}
        self.declared = {}
        self.md = {}


TOKEN = re.compile(r'''
    c"(?:[^"\\]|\\[0-9A-Fa-f]{2})*" |
    "(?:[^"\\]|\\.)*" |
    [%@](?:"[^"]*"|[-\w.$]+) |
    ![\w.]* |
    \#\d+ |
    -?\d+(?:\.\d+(?:e[+-]?\d+)?)? |
    0x[0-9A-FK]+ |
    [\w.]+ |
    \.\.\. |
    [(){}\[\]<>,=*:|]
''', re.X)


class Parser:
    def __init__(self, text):
        self.m = Module()
        self.text = text

    # -- types
    def ptype(self, t, i):
        """Parse type from token list t at i: returns (Ty, i)."""
        s = t[i]
        if s == '[':
            n = int(t[i + 1])
            e, j = self.ptype(t, i + 3)
            assert t[j] == ']'
            return Ty('arr', n, elem=e), j + 1
        if s == '{':
            f = []
            j = i + 1
            while t[j] != '}':
                e, j = self.ptype(t, j)
                f.append(e)
                if t[j] == ',':
                    j += 1
            return Ty('struct', 0, fields=f), j + 1
        if s == '<':
            if t[i + 1] == '{':
                e, j = self.ptype(t, i + 1)
                e.n = 1
                return e, j + 1
            raise AnalysisBroken('vector type')
        if s[0] == '%':
            return self.named(s), i + 1
        if s == 'ptr':
            j = i + 1
            if j < len(t) and t[j] == 'addrspace':
                j += 4
            return Ty('ptr'), j
        if s == 'void':
            return Ty('void'), i + 1
        if s == 'double':
            return Ty('float', 64), i + 1
        if s == 'float':
            return Ty('float', 32), i + 1
        if s == 'x86_fp80':
            return Ty('float', 128), i + 1
        if s == 'label' or s == 'metadata':
            return Ty('void'), i + 1
        if s == 'opaque':
            return Ty('opaque'), i + 1
        if re.match(r'i\d+$', s):
            return Ty('int', int(s[1:])), i + 1
        raise AnalysisBroken('type %r' % (t[i:i + 4],))

    def named(self, s):
        if s not in self.m.types:
            self.m.types[s] = Ty('opaque', name=s)
        return self.m.types[s]

    # -- operands
    def pval(self, ty, t, i):
        s = t[i]
        if s[0] == '%':
            return ('r', s), i + 1
        if s[0] == '@':
            return ('g', s[1:].strip('"')), i + 1
        if s == 'null':
            return NULL, i + 1
        if s in ('undef', 'poison'):
            return UNDEF, i + 1
        if s == 'true':
            return 1, i + 1
        if s == 'false':
            return 0, i + 1
        if s == 'zeroinitializer':
            return ('zero',), i + 1
        if s.startswith('c"'):
            return ('str', s[2:-1]), i + 1
        if s == 'getelementptr':
            j = i + 1
            while t[j] != '(':
                j += 1
            bt, j = self.ptype(t, j + 1)
            assert t[j] == ','
            pt, j = self.ptype(t, j + 1)
            base, j = self.pval(pt, t, j)
            idx = []
            while t[j] == ',':
                j += 1
                while t[j] in ('inrange',):
                    j += 1
                it, j = self.ptype(t, j)
                v, j = self.pval(it, t, j)
                idx.append(v)
            assert t[j] == ')'
            off, var = self.gepoff(bt, idx)
            if var:
                raise AnalysisBroken('variable constant gep')
            return ('cgep', base, off), j + 1
        if s in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            j = i + 2
            st, j = self.ptype(t, j)
            v, j = self.pval(st, t, j)
            assert t[j] == 'to'
            tt, j = self.ptype(t, j + 1)
            return ('cast', s, v), j + 1
        if s == '{' or s == '[' or s == '<':
            close = {'{': '}', '[': ']', '<': '>'}[s]
            j = i + 1
            vals = []
            if t[j] == '{':   # packed <{ ... }>
                v, j = self.pval(ty, t, j)
                return v, j + 1
            while t[j] != close:
                et, j = self.ptype(t, j)
                v, j = self.pval(et, t, j)
                vals.append((et, v))
                if t[j] == ',':
                    j += 1
            return ('agg', vals), j + 1
        if re.match(r'-?\d+$', s):
            return int(s), i + 1
        if s.startswith('0x') or re.match(r'-?\d', s):
            return ('float', s), i + 1
        raise AnalysisBroken('operand %r' % (t[i:i + 4],))

    def gepoff(self, ty, idx):
        """(constant offset, [(operand, scale)])."""
        layout(ty)
        off = 0
        var = []
        first = True
        cur = ty
        for v in idx:
            if first:
                scale = layout(cur).size
                first = False
            elif cur.k == 'struct':
                off += cur.offs[v] if layout(cur) else 0
                cur = cur.fields[v]
                continue
            elif cur.k == 'arr':
                cur = cur.elem
                scale = layout(cur).size
            else:
                raise AnalysisBroken('gep into %r' % cur.k)
            if isinstance(v, int):
                off += v * scale
            else:
                var.append((v, scale))
        return off, var

    def skip_attrs(self, t, i):
        while i < len(t):
            s = t[i]
            if s in ('noundef', 'signext', 'zeroext', 'noalias', 'nonnull',
                     'nocapture', 'readonly', 'writeonly', 'immarg', 'nest',
                     'returned', 'readnone', 'inreg', 'noreturn', 'dso_local',
                     'allocptr', 'nofree', 'allocalign', 'fastcc', 'ccc',
                     'tail', 'notail', 'musttail', 'fast', 'nsz', 'nnan'):
                i += 1
            elif s in ('align', 'dereferenceable', 'dereferenceable_or_null',
                       'byval', 'sret'):
                if t[i + 1] == '(':
                    d = 0
                    i += 1
                    while True:
                        if t[i] == '(':
                            d += 1
                        elif t[i] == ')':
                            d -= 1
                        i += 1
                        if d == 0:
                            break
                else:
                    i += 2
            else:
                return i
        return i

    # -- module
    def parse(self):
        lines = self.text.split('\n')
        # Types first (they may be referred to before their definition).
        for ln in lines:
            if ln.startswith('%') and ' = type ' in ln:
                name, rest = ln.split(' = type ', 1)
                t = TOKEN.findall(rest)
                ty, _ = self.ptype(t, 0)
                cur = self.named(name)
                cur.k, cur.n, cur.elem, cur.fields = (ty.k, ty.n, ty.elem,
                                                      ty.fields)
                cur.name = name
            elif ln.startswith('!') and ' = ' in ln:
                k, v = ln.split(' = ', 1)
                self.m.md[k] = v
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('@'):
                self.pglobal(ln)
            elif ln.startswith('declare '):
                t = TOKEN.findall(ln)
                name = next(x for x in t if x[0] == '@')[1:]
                self.m.declared[name] = ln
            elif ln.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.pfunction(ln, lines[i + 1:j])
                i = j
            i += 1
        return self.m

    def pglobal(self, ln):
        name, rest = ln.split(' = ', 1)
        name = name[1:].strip('"')
        t = TOKEN.findall(rest)
        j = 0
        const = False
        ext = False
        while t[j] not in ('global', 'constant'):
            if t[j] in ('external', 'extern_weak'):
                ext = True
            if t[j] == 'alias':
                return
            j += 1
        const = t[j] == 'constant'
        ty, j = self.ptype(t, j + 1)
        init = None
        if not ext:
            try:
                init, j = self.pval(ty, t, j)
            except AnalysisBroken:
                init = ('unknown',)
        self.m.globals[name] = (ty, init, const)

    def dbg(self, s):
        m = re.search(r'!dbg (!\d+)', s)
        return m.group(1) if m else None

    def locline(self, ref):
        """(line) of a DILocation."""
        md = self.m.md.get(ref, '')
        m = re.search(r'line: (\d+)', md)
        return int(m.group(1)) if m else 0

    def pfunction(self, head, body):
        t = TOKEN.findall(head)
        i = 1
        while t[i] in ('internal', 'private', 'hidden', 'available_externally',
                       'linkonce_odr', 'weak', 'linkonce', 'protected'):
            i += 1
        i = self.skip_attrs(t, i)
        ret, i = self.ptype(t, i)
        i = self.skip_attrs(t, i)
        name = t[i][1:].strip('"')
        fn = Function(name)
        fn.ret = ret
        ref = self.dbg(head)
        if ref:
            md = self.m.md.get(ref, '')
            mm = re.search(r'line: (\d+)', md)
            fn.line = int(mm.group(1)) if mm else 0
            mm = re.search(r'file: (!\d+)', md)
            if mm:
                f = self.m.md.get(mm.group(1), '')
                mm = re.search(r'filename: "([^"]*)"', f)
                d = re.search(r'directory: "([^"]*)"', f)
                if mm:
                    fn.file = os.path.normpath(
                        os.path.join(d.group(1) if d else '', mm.group(1)))
        assert t[i + 1] == '('
        i += 2
        k = 0
        while t[i] != ')':
            if t[i] == '...':
                i += 1
                continue
            ty, i = self.ptype(t, i)
            i = self.skip_attrs(t, i)
            pn = '%' + str(k)
            if t[i][0] == '%':
                pn = t[i]
                i += 1
            fn.params.append((ty, pn))
            k += 1
            if t[i] == ',':
                i += 1
        cur = None
        implicit = str(k)
        names = {}
        j = 0
        while j < len(body):
            ln = body[j].strip()
            j += 1
            if not ln or ln.startswith(';'):
                continue
            m = re.match(r'^("?[-\w.$]+"?):', ln)
            if m and not body[j - 1].startswith('  '):
                cur = '%' + m.group(1)
                fn.blocks[cur] = []
                fn.order.append(cur)
                continue
            if cur is None:
                cur = '%' + implicit
                fn.blocks[cur] = []
                fn.order.append(cur)
            if ln.startswith('switch'):
                while not ln.rstrip().endswith(']') and '], !dbg' not in ln:
                    ln += ' ' + body[j].strip()
                    j += 1
            ins = self.pinstr(ln, names)
            if ins is not None:
                ins.fn = fn
                fn.blocks[cur].append(ins)
        for b in fn.blocks.values():
            for ins in b:
                if ins.op == 'alloca':
                    ins.var = names.get(ins.dst, ins.dst.lstrip('%'))
        self.m.functions[name] = fn

    def pinstr(self, ln, names):
        ref = self.dbg(ln)
        dst = None
        if 'llvm.dbg.declare' in ln:
            m = re.search(r'metadata ptr (%[-\w.$"]+), metadata (!\d+)', ln)
            if m:
                md = self.m.md.get(m.group(2), '')
                mm = re.search(r'name: "([^"]*)"', md)
                if mm:
                    names[m.group(1)] = mm.group(1)
            return None
        if 'llvm.dbg.' in ln or 'llvm.lifetime' in ln:
            return None
        t = TOKEN.findall(ln.split(', !dbg')[0])
        i = 0
        if len(t) > 1 and t[1] == '=':
            dst = t[0]
            i = 2
        op = t[i]
        i += 1
        if op in ('tail', 'notail', 'musttail'):
            op = t[i]
            i += 1
        ins = Instr(op, dst)
        if ref:
            ins.line = self.locline(ref)
        if op == 'alloca':
            ins.ty, i = self.ptype(t, i)
            layout(ins.ty)
            ins.x = 1
            if i < len(t) and t[i] == ',' and t[i + 1] != 'align':
                it, i = self.ptype(t, i + 1)
                ins.x, i = self.pval(it, t, i)
        elif op == 'load':
            if t[i] == 'volatile':
                i += 1
            ins.ty, i = self.ptype(t, i)
            layout(ins.ty)
            pt, i = self.ptype(t, i + 1)
            ins.a, i = self.pval(pt, t, i)
        elif op == 'store':
            if t[i] == 'volatile':
                i += 1
            ins.ty, i = self.ptype(t, i)
            layout(ins.ty)
            ins.a, i = self.pval(ins.ty, t, i)
            pt, i = self.ptype(t, i + 1)
            ins.b, i = self.pval(pt, t, i)
        elif op == 'getelementptr':
            while t[i] in ('inbounds', 'nuw', 'nusw'):
                i += 1
            bt, i = self.ptype(t, i)
            pt, i = self.ptype(t, i + 1)
            ins.a, i = self.pval(pt, t, i)
            idx = []
            while i < len(t) and t[i] == ',':
                it, i = self.ptype(t, i + 1)
                v, i = self.pval(it, t, i)
                idx.append(v if isinstance(v, int) else (v, it.n))
            off, var = self.gepoff(bt, idx)
            ins.b = off
            ins.x = [(v[0], v[1], sc) for v, sc in var]
        elif op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or',
                    'xor', 'udiv', 'sdiv', 'urem', 'srem'):
            while t[i] in ('nsw', 'nuw', 'exact', 'disjoint'):
                ins.flags += t[i] + ' '
                i += 1
            ins.ty, i = self.ptype(t, i)
            ins.a, i = self.pval(ins.ty, t, i)
            ins.b, i = self.pval(ins.ty, t, i + 1)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fcmp', 'frem'):
            ins.op = 'fop'
            ins.x = op
            ins.ty = Ty('float', 64)
        elif op == 'icmp':
            ins.x = t[i]
            ins.ty, i = self.ptype(t, i + 1)
            ins.a, i = self.pval(ins.ty, t, i)
            ins.b, i = self.pval(ins.ty, t, i + 1)
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast',
                    'sitofp', 'fptosi', 'uitofp', 'fptoui', 'fpext',
                    'fptrunc'):
            while t[i] in ('nneg', 'nuw', 'nsw'):
                i += 1
            st, i = self.ptype(t, i)
            ins.a, i = self.pval(st, t, i)
            assert t[i] == 'to'
            ins.ty, i = self.ptype(t, i + 1)
            ins.x = st
        elif op == 'br':
            if t[i] == 'label':
                ins.op = 'jmp'
                ins.a = t[i + 1]
            else:
                ct, i = self.ptype(t, i)
                ins.a, i = self.pval(ct, t, i)
                ins.b = t[i + 2]
                ins.x = t[i + 5]
        elif op == 'switch':
            ins.ty, i = self.ptype(t, i)
            ins.a, i = self.pval(ins.ty, t, i)
            ins.b = t[i + 2]
            i += 3
            assert t[i] == '['
            i += 1
            ins.x = []
            while t[i] != ']':
                ct, i = self.ptype(t, i)
                v, i = self.pval(ct, t, i)
                ins.x.append((v, t[i + 2]))
                i += 3
        elif op == 'ret':
            ins.ty, i = self.ptype(t, i)
            if ins.ty.k != 'void':
                ins.a, i = self.pval(ins.ty, t, i)
        elif op == 'phi':
            ins.ty, i = self.ptype(t, i)
            ins.x = []
            while True:
                assert t[i] == '['
                v, i = self.pval(ins.ty, t, i + 1)
                ins.x.append((v, t[i + 1]))
                i += 3
                if i < len(t) and t[i] == ',':
                    i += 1
                    if t[i] != '[':
                        break
                else:
                    break
        elif op == 'select':
            ct, i = self.ptype(t, i)
            ins.a, i = self.pval(ct, t, i)
            ins.ty, i = self.ptype(t, i + 1)
            ins.b, i = self.pval(ins.ty, t, i)
            et, i = self.ptype(t, i + 1)
            ins.x, i = self.pval(et, t, i)
        elif op == 'call':
            i = self.skip_attrs(t, i)
            ins.ty, i = self.ptype(t, i)
            if t[i] == '(':       # varargs function type
                d = 0
                while True:
                    if t[i] == '(':
                        d += 1
                    elif t[i] == ')':
                        d -= 1
                    i += 1
                    if d == 0:
                        break
            if t[i] == 'asm':
                ins.a = ('asm',)
                ins.b = []
                return ins
            ins.a, i = self.pval(Ty('ptr'), t, i)
            assert t[i] == '('
            i += 1
            args = []
            while t[i] != ')':
                if t[i] == 'metadata':
                    return None
                ty, i = self.ptype(t, i)
                i = self.skip_attrs(t, i)
                v, i = self.pval(ty, t, i)
                args.append((ty, v))
                if t[i] == ',':
                    i += 1
            ins.b = args
        elif op == 'unreachable':
            pass
        elif op in ('extractvalue', 'insertvalue', 'freeze', 'fence',
                    'atomicrmw', 'cmpxchg', 'va_arg'):
            ins.op = 'unsupported'
            ins.x = op
        else:
            raise AnalysisBroken('instruction %r' % ln)
        return ins


def succs(fn, b):
    last = fn.blocks[b][-1]
    if last.op == 'jmp':
        return [last.a]
    if last.op == 'br':
        return [last.b, last.x]
    if last.op == 'switch':
        return [last.b] + [l for _, l in last.x]
    return []


def cfg(fn):
    """Compute RPO numbers and loop headers."""
    if fn.rpo is not None:
        return
    entry = fn.order[0]
    seen = set()
    post = []
    stack = [(entry, iter(succs(fn, entry)))]
    seen.add(entry)
    on = {entry}
    headers = set()
    back = []
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                on.add(s)
                stack.append((s, iter(succs(fn, s))))
                break
            elif s in on:
                headers.add(s)
                back.append((b, s))
        else:
            post.append(b)
            on.discard(b)
            stack.pop()
    post.reverse()
    fn.rpo = {b: i for i, b in enumerate(post)}
    fn.headers = headers
    # Natural loops: header -> blocks.
    preds = {}
    for b in fn.rpo:
        for x in succs(fn, b):
            preds.setdefault(x, []).append(b)
    fn.loops = {}
    for src, h in back:
        body = fn.loops.setdefault(h, {h})
        todo = [src]
        while todo:
            x = todo.pop()
            if x in body:
                continue
            body.add(x)
            todo.extend(preds.get(x, ()))


def uses(ins):
    """Registers read by an instruction."""
    r = []

    def op(x):
        if x.__class__ is tuple and len(x) > 1:
            if x[0] == 'r':
                r.append(x[1])
            elif x[0] in ('cgep', 'cast'):
                op(x[1])
    k = ins.op
    if k == 'call':
        op(ins.a)
        for _, v in ins.b:
            op(v)
    elif k == 'getelementptr':
        op(ins.a)
        for v, _, _ in ins.x:
            op(v)
    elif k == 'phi':
        for v, _ in ins.x:
            op(v)
    elif k == 'switch':
        op(ins.a)
    elif k == 'jmp':
        pass
    elif k == 'br':
        op(ins.a)
    else:
        for v in (ins.a, ins.b, ins.x):
            op(v)
    return r


def liveness(fn):
    """Live-in registers per block, live-out registers per call."""
    if getattr(fn, 'livein', None) is not None:
        return
    use, dfn = {}, {}
    for b, blk in fn.blocks.items():
        u, d = set(), set()
        for ins in blk:
            if ins.op != 'phi':
                for x in uses(ins):
                    if x not in d:
                        u.add(x)
            if ins.dst:
                d.add(ins.dst)
        use[b], dfn[b] = u, d
    # Operands of phi nodes are used at the end of the predecessor.
    phis = {b: set() for b in fn.blocks}
    for b, blk in fn.blocks.items():
        for ins in blk:
            if ins.op == 'phi':
                for v, l in ins.x:
                    if l in phis:
                        probe = Instr(ins.op, None)
                        probe.x = [(v, l)]
                        phis[l].update(uses(probe))
    live = {b: set(use[b]) for b in fn.blocks}
    ch = True
    while ch:
        ch = False
        for b in reversed(fn.order):
            n = use[b] | (phis[b] - dfn[b])
            for s in succs(fn, b):
                n |= live[s] - dfn[b]
            if n != live[b]:
                live[b] = n
                ch = True
    fn.livein = live
    fn.callive = {}
    for b, blk in fn.blocks.items():
        cur = set(phis[b])
        for s in succs(fn, b):
            cur |= live[s]
        for ins in reversed(blk):
            if ins.dst:
                cur.discard(ins.dst)
            if ins.op == 'call':
                fn.callive[id(ins)] = frozenset(cur)
            cur.update(uses(ins))


def status_vars(fn):
    """Locals compared with small constants (status codes, states)."""
    r = getattr(fn, 'status', None)
    if r is not None:
        return r
    allocas = set()
    loaded = {}
    r = set()
    for blk in fn.blocks.values():
        for ins in blk:
            if ins.op == 'alloca':
                allocas.add(ins.dst)
    for b in fn.order:
        for ins in fn.blocks[b]:
            if ins.op == 'load' and ins.a.__class__ is tuple \
                    and ins.a[0] == 'r' and ins.a[1] in allocas:
                loaded[ins.dst] = ins.a[1]
            elif ins.op == 'ret' and ins.a.__class__ is tuple \
                    and ins.a[0] == 'r' and ins.a[1] in loaded:
                if fn.ret is None or (fn.ret.k == 'int' and fn.ret.n <= 32):
                    r.add(loaded[ins.a[1]])
            elif ins.op in ('icmp', 'switch') and ins.a.__class__ is tuple \
                    and ins.a[0] == 'r' and ins.a[1] in loaded:
                if ins.op == 'switch':
                    r.add(loaded[ins.a[1]])
                elif ins.ty.k == 'int' and ins.ty.n == 32 \
                        and ins.b.__class__ is int and -40 <= ins.b <= 40 \
                        and ins.x in ('eq', 'ne', 'slt', 'sge', 'sgt', 'sle'):
                    r.add(loaded[ins.a[1]])
    fn.status = r
    return r


def compile_ir(sources, flags=(), include=()):
    """Compile and link C sources: returns the Module."""
    with tempfile.TemporaryDirectory(prefix='sa-ir-') as d:
        outs = []
        procs = []
        for k, s in enumerate(sources):
            out = os.path.join(d, '%d.ll' % k)
            outs.append(out)
            cmd = [CLANG, '-std=gnu99', '-O0', '-Xclang', '-disable-O0-optnone',
                   '-fno-discard-value-names', '-g', '-w', '-S', '-emit-llvm',
                   *['-I' + x for x in include], *flags, s, '-o', out]
            procs.append((s, subprocess.Popen(cmd, stderr=subprocess.PIPE)))
        for s, p in procs:
            _, err = p.communicate()
            if p.returncode != 0:
                raise AnalysisBroken('cannot compile %s:\n%s' % (
                    s, err.decode()[-2000:]))
        if len(outs) > 1:
            linked = os.path.join(d, 'all.ll')
            p = subprocess.run([LINK, '-S', *outs, '-o', linked],
                               stderr=subprocess.PIPE)
            if p.returncode != 0:
                raise AnalysisBroken('cannot link: %s' % p.stderr.decode())
        else:
            linked = outs[0]
        with open(linked) as f:
            text = f.read()
    m = Parser(text).parse()
    # Contracts of functions, given by the harness.
    for name in list(m.functions):
        if name.startswith('sa_stub_'):
            if name[8:] not in m.functions:
                raise AnalysisBroken('no function %s' % name[8:])
            m.functions[name[8:]] = m.functions[name]
    return m
