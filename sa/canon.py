"""Canonical forms of expressions up to local renaming, for comparing keys."""
import ast

from .program import Cls, Func
from .flow import FUNCS


def definitions(flow, n):
    """the definitions a name load can see, from its own or an enclosing function"""
    defs = flow.uses.get(n)
    if defs:
        return frozenset(defs)
    if n.id in flow.locals:
        return frozenset()
    f = flow.parent
    while f is not None:
        if n.id in f.locals:
            return frozenset(f.defs.get(n.id, ()))
        f = f.parent
    return frozenset()


def roots(ds):
    """the bindings behind definitions that only change what a name holds"""
    out, work, seen = set(), list(ds), set()
    while work:
        d = work.pop()
        if d in seen:
            continue
        seen.add(d)
        if d.kind in ('mut', 'aug') and d.prev:
            work += list(d.prev)
        else:
            out.add(d)
    return out


def canon(flow, e, depth=0, sub=None):
    """hashable form; equal forms at two points of one call stand for equal values"""
    if depth > 40:
        return ('deep', id(e))
    go = lambda x: canon(flow, x, depth + 1, sub)
    if isinstance(e, ast.Constant):
        return ('const', repr(e.value))
    if isinstance(e, ast.Name):
        if sub is not None and e.id in sub and e.id in flow.locals:
            return sub[e.id]
        defs = definitions(flow, e)
        if not defs:
            return ('global', e.id)
        if len(defs) == 1:
            d = next(iter(defs))
            if d.kind == 'assign' and d.whole is not None:
                return canon(d.scope, d.whole, depth + 1, sub)
            if d.kind == 'param':
                return ('param', d.name, id(d.scope.node))
        return ('defs', e.id, frozenset(d.id for d in defs))
    if isinstance(e, (ast.Tuple, ast.List)):
        return (type(e).__name__.lower(),) + tuple(go(x) for x in e.elts)
    if isinstance(e, ast.Starred):
        return ('star', go(e.value))
    if isinstance(e, ast.Attribute):
        return ('attr', go(e.value), e.attr)
    if isinstance(e, ast.Subscript):
        return ('item', go(e.value), go(e.slice))
    if isinstance(e, ast.Slice):
        return ('slice',) + tuple(go(x) if x is not None else None for x in (e.lower, e.upper, e.step))
    if isinstance(e, ast.BinOp):
        return ('bin', type(e.op).__name__, go(e.left), go(e.right))
    if isinstance(e, ast.UnaryOp):
        return ('un', type(e.op).__name__, go(e.operand))
    if isinstance(e, ast.BoolOp):
        return ('bool', type(e.op).__name__) + tuple(go(x) for x in e.values)
    if isinstance(e, ast.Compare):
        return ('cmp', go(e.left)) + tuple((type(o).__name__, go(x)) for o, x in zip(e.ops, e.comparators))
    if isinstance(e, ast.IfExp):
        return ('if', go(e.test), go(e.body), go(e.orelse))
    if isinstance(e, ast.Call):
        return ('call', go(e.func)) + tuple(go(x) for x in e.args) + tuple((k.arg, go(k.value)) for k in e.keywords)
    return ('expr', ast.dump(e), tuple(go(x) for x in ast.walk(e) if isinstance(x, ast.Name)))


def target(program, func, call):
    """library function a call names directly (f(...), cls.f(...), Class.f(...), self.f(...)), or None"""
    c = call.func
    g = func
    if isinstance(c, ast.Name):
        while g is not None:
            for h in g.nested:
                if h.name == c.id and isinstance(h.node, FUNCS):
                    return h
            g = g.parent
        t = program.resolve_name(func.module, c.id)
        return t if isinstance(t, Func) else t.find('__init__') if isinstance(t, Cls) else None
    if isinstance(c, ast.Attribute) and isinstance(c.value, ast.Name):
        root = func
        while root.parent is not None:
            root = root.parent
        if root.cls is not None and root.params() and c.value.id == root.params()[0] and root.kind != 'staticmethod':
            return root.cls.find(c.attr)
        t = program.resolve_name(func.module, c.value.id)
        if isinstance(t, Cls):
            return t.find(c.attr)
        if hasattr(t, 'funcs'):
            return t.funcs.get(c.attr)
    return None


def bind_args(f, call, bound=None):
    """parameter name -> argument expression, for plain calls; None when it cannot be told"""
    ps = f.params()
    if bound is None:
        bound = f.kind in ('method', 'classmethod') and f.parent is None and f.cls is not None
    if bound and f.kind == 'method' and isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) \
            and call.func.value.id == f.cls.name:
        bound = False
    if bound:
        ps = ps[1:]
    out = {}
    for i, a in enumerate(call.args):
        if isinstance(a, ast.Starred):
            return None
        if i >= len(ps):
            return None
        out[ps[i]] = a
    for k in call.keywords:
        if k.arg is None:
            return None
        out[k.arg] = k.value
    return out
