"""Live variables at the heads of the loops of a function."""

import ast


def uses(node):
    """Names read anywhere below node (also in nested functions)."""
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name)
            and not isinstance(x.ctx, ast.Store)}


def stores(node):
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name)
            and isinstance(x.ctx, ast.Store)}


class Live:
    def __init__(self, fn):
        self.heads = {}
        self.always = set()
        for x in ast.walk(fn):
            if x is not fn and isinstance(
                    x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                self.always |= uses(x)
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                self.always |= set(x.names)
        self.loops = []
        self.extra = [set()]
        if not isinstance(fn, ast.Lambda):
            self.block(fn.body, set())

    def block(self, stmts, out):
        for s in reversed(stmts):
            out = self.stmt(s, out) | self.extra[-1]
        return out

    def loop(self, node, out, head):
        """head(live after) -> live at the head"""
        cur = set(out)
        while True:
            self.loops.append((out, cur))
            body = self.block(node.body, cur)
            self.loops.pop()
            new = cur | head(body)
            if new == cur:
                break
            cur = new
        self.heads[id(node)] = cur
        return cur

    def stmt(self, s, out):
        if isinstance(s, ast.Assign):
            kill = {t.id for t in s.targets if isinstance(t, ast.Name)}
            for t in s.targets:
                if isinstance(t, (ast.Tuple, ast.List)):
                    kill |= {e.id for e in t.elts if isinstance(e, ast.Name)}
            return (out - kill) | uses(s)
        if isinstance(s, ast.AugAssign):
            return out | uses(s) | stores(s)
        if isinstance(s, ast.Return):
            return uses(s)
        if isinstance(s, ast.Raise):
            return uses(s)
        if isinstance(s, ast.If):
            return (uses(s.test) | self.block(s.body, out)
                    | self.block(s.orelse, out))
        if isinstance(s, ast.While):
            end = self.block(s.orelse, out)
            return self.loop(s, out | end,
                             lambda body: body | end | uses(s.test))
        if isinstance(s, ast.For):
            end = self.block(s.orelse, out)
            return uses(s.iter) | self.loop(
                s, out | end,
                lambda body: (body - stores(s.target)) | end
                | uses(s.target))
        if isinstance(s, ast.Break):
            return set(self.loops[-1][0])
        if isinstance(s, ast.Continue):
            return set(self.loops[-1][1])
        if isinstance(s, ast.With):
            out = self.block(s.body, out)
            for i in reversed(s.items):
                if isinstance(i.optional_vars, ast.Name):
                    out = out - {i.optional_vars.id}
                elif i.optional_vars is not None:
                    out = out | uses(i.optional_vars)
                out = out | uses(i.context_expr)
            return out
        if isinstance(s, ast.Try):
            after = self.block(s.finalbody, out)
            fin = self.block(s.finalbody, self.extra[-1])
            hs = set(fin)
            self.extra.append(self.extra[-1] | fin)
            for h in s.handlers:
                hs |= self.block(h.body, after)
                if h.type is not None:
                    hs |= uses(h.type)
            self.extra.pop()
            end = self.block(s.orelse, after)
            self.extra.append(self.extra[-1] | hs)
            r = self.block(s.body, end)
            self.extra.pop()
            return r
        return out | uses(s)
