"""Backward liveness of local variables over a function's statements (structured, to a fixpoint in loops)."""
import ast


def uses(n):
    """Names read by an expression or simple statement (nested functions count with everything they mention)."""
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and not isinstance(x.ctx, (ast.Store, ))} | {
        x.id for f in ast.walk(n) if isinstance(f, (ast.Lambda, ast.FunctionDef, ast.ClassDef, ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp))
        for x in ast.walk(f) if isinstance(x, ast.Name)}


def binds(n):
    """Names a plain assignment certainly rebinds."""
    if isinstance(n, ast.Assign):
        ts = n.targets
    elif isinstance(n, ast.AnnAssign) and n.value is not None:
        ts = [n.target]
    else:
        return set()
    out = set()
    for t in ts:
        for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
            if isinstance(x, ast.Name):
                out.add(x.id)
    return out


class Liveness:
    def __init__(self, fn):
        self.before, self.after = {}, {}
        self.pinned = set()
        for n in ast.walk(fn):
            if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                self.pinned |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.pinned |= set(n.names)
        if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.body(fn.body, set(), set(), set(), set())

    def body(self, stmts, out, brk, cont, exc):
        for s in reversed(stmts):
            self.after[id(s)] = self.after.get(id(s), set()) | out
            out = self.one(s, out, brk, cont, exc) | exc
            self.before[id(s)] = self.before.get(id(s), set()) | out
        return out

    def one(self, s, out, brk, cont, exc):
        b = lambda stmts, o, k=brk, c=cont, e=exc: self.body(stmts, o, k, c, e)
        if isinstance(s, (ast.Return, ast.Raise)):
            return uses(s) | exc
        if isinstance(s, ast.Break):
            return brk
        if isinstance(s, ast.Continue):
            return cont
        if isinstance(s, ast.If):
            return uses(s.test) | b(s.body, out) | b(s.orelse, out)
        if isinstance(s, (ast.While, ast.For, ast.AsyncFor)):
            head = (uses(s.test) if isinstance(s, ast.While) else uses(s.iter)) | out
            while True:
                new = head | b(s.orelse, out) | self.body(s.body, head, out, head, exc)
                if new == head:
                    return head
                head = new
        if isinstance(s, (ast.With, ast.AsyncWith)):
            r = b(s.body, out)
            for i in s.items:
                r |= uses(i.context_expr)
            return r
        if isinstance(s, ast.Try):
            fin = b(s.finalbody, out | exc | brk | cont) if s.finalbody else set()
            o = out | fin
            hs = set()
            for h in s.handlers:
                hs |= b(h.body, o, brk | fin, cont | fin, exc | fin)
                if h.type is not None:
                    hs |= uses(h.type)
            els = b(s.orelse, o, brk | fin, cont | fin, exc | fin)
            return self.body(s.body, els | o, brk | fin, cont | fin, exc | fin | hs)
        return (out - binds(s)) | uses(s)
