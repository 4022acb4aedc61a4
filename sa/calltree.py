"""What an operation is put together from.

A flow-insensitive walk of the calls an operation leads to.  Constants, the operation's own
arguments, classes and functions (by name, attribute, keyword, default, nested definition, lambda or
functools.partial) are followed through calls; everything else is unknown.  A value is a frozenset
of alternatives; None stands for "unknown".
"""
import ast

from .flow import FUNCS
from .program import Cls, Func, Module, walk_own

LIMIT = 8
DEPTH = 40


class Closure:
    def __init__(self, func, frame):
        self.func, self.frame = func, frame
        self.key = ('closure', func.qual, id(frame))

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, other):
        return isinstance(other, Closure) and self.key == other.key


class Frame:
    def __init__(self, func, bound, outer=None):
        self.func, self.bound, self.outer = func, bound, outer
        self.busy, self.memo = set(), {}
        self.rhs = {}
        for n in walk_own(func.node) if isinstance(func.node, FUNCS) else ():
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    self._target(t, n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                self._target(n.target, n.value)
            elif isinstance(n, ast.NamedExpr):
                self._target(n.target, n.value)
            elif isinstance(n, ast.AugAssign):
                self._target(n.target, None)
            elif isinstance(n, (ast.For, ast.comprehension)):
                self._target(n.target, None)
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None:
                        self._target(i.optional_vars, None)
        for g in func.nested:
            if isinstance(g.node, FUNCS):
                self.rhs.setdefault(g.name, []).append(g)

    def _target(self, t, value):
        if isinstance(t, ast.Name):
            self.rhs.setdefault(t.id, []).append(value)
        elif isinstance(t, (ast.Tuple, ast.List)):
            same = isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in value.elts + t.elts)
            for i, x in enumerate(t.elts):
                self._target(x, value.elts[i] if same else None)
        elif isinstance(t, ast.Starred):
            self._target(t.value, None)


def union(vals):
    out = frozenset()
    for v in vals:
        if v is None:
            return None
        out |= v
        if len(out) > LIMIT:
            return None
    return out


class CallTree:
    """seen: list of (Func, {parameter: value}, call node, calling Func) in the order met"""

    def __init__(self, program, eng, stop, dead=None):
        self.p, self.eng, self.stop, self.dead = program, eng, stop, dead
        self.seen, self.done, self.unknown = [], set(), 0

    # -- values ---------------------------------------------------------------------
    def name(self, fr, n):
        f = fr
        while f is not None:
            if n in f.memo:
                return f.memo[n]
            if n in f.rhs:
                if n in f.busy:
                    return frozenset()
                f.busy.add(n)
                vals = [frozenset([Closure(r, f)]) if isinstance(r, Func) else self.ev(f, r) if r is not None else None for r in f.rhs[n]]
                if n in f.bound:
                    vals.append(f.bound[n])
                f.busy.discard(n)
                f.memo[n] = union(vals)
                return f.memo[n]
            if n in f.bound:
                return f.bound[n]
            f = f.outer
        return self.thing(fr.func.module, n)

    def thing(self, module, n, depth=0):
        r = self.p.resolve_name(module, n)
        if isinstance(r, (Func, Cls, Module)):
            return frozenset([r])
        if isinstance(r, tuple) and r[0] == 'ext' and r[1:] == ('functools', 'partial'):
            return frozenset(['partial'])
        if isinstance(r, tuple) and r[0] == 'global' and depth < 5:
            m = self.p.modules[r[1]]
            vals = m.assigns[r[2]]
            if len(vals) == 1:
                return self.ev(Frame(_Top(m), {}), vals[0])
        return None

    def ev(self, fr, e):
        if isinstance(e, ast.Constant):
            return frozenset([('c', e.value)])
        if isinstance(e, ast.Name):
            return self.name(fr, e.id)
        if isinstance(e, ast.IfExp):
            return union([self.ev(fr, e.body), self.ev(fr, e.orelse)])
        if isinstance(e, ast.NamedExpr):
            return self.ev(fr, e.value)
        if isinstance(e, ast.Lambda):
            for g in self._lambdas(fr):
                if g.node is e:
                    return frozenset([Closure(g, fr)])
            return None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.ev(fr, e.operand)
            return None if v is None or any(not (isinstance(x, tuple) and x[0] == 'c') for x in v) else frozenset(('c', not x[1]) for x in v)
        if isinstance(e, ast.Tuple) and not e.elts:
            return frozenset([('c', ())])
        if isinstance(e, ast.Attribute):
            return self.attr(fr, e)
        if isinstance(e, ast.Call):
            return self.call(fr, e, record=False)
        return None

    def _lambdas(self, fr):
        f = fr
        while f is not None:
            yield from getattr(f.func, 'nested', ())
            f = f.outer
        yield from (g for g in self.p.funcs.values() if isinstance(g.node, ast.Lambda) and g.module is fr.func.module)

    def attr(self, fr, e):
        base = self.ev(fr, e.value)
        out = []
        for b in base if base is not None else (None,):
            if isinstance(b, Cls):
                m = b.find(e.attr)
                if m is not None:
                    out.append(frozenset([Bound(m, b)]))
                    continue
                attrs = [c.attrs[e.attr] for c in b.mro() if e.attr in c.attrs]
                if attrs and isinstance(attrs[0], ast.AST):
                    out.append(self.ev(Frame(_Top(b.module), {}), attrs[0]))
                    continue
            elif isinstance(b, Module):
                out.append(self.thing(b, e.attr))
                continue
            elif isinstance(b, tuple) and b[0] == 'self':
                m = b[1].find(e.attr)
                if m is not None:
                    out.append(frozenset([Bound(m, b)]))
                    continue
            out.append(self.guess(e))
        return union(out)

    def guess(self, e):
        """the functions the type inference found for the attribute"""
        t = self.eng.types.get(e)
        if not t:
            return None
        out = set()
        for a in t:
            if a[0] == 'M' and a[1][0] == 'F' and a[1][1] in self.p.funcs and not a[1][1].startswith('cached.'):
                out.add(Bound(self.p.funcs[a[1][1]], None))
            elif a[0] == 'F' and a[1] in self.p.funcs and not a[1].startswith('cached.'):
                out.add(self.p.funcs[a[1]])
            else:
                return None
        return frozenset(out) if 0 < len(out) <= LIMIT else None

    # -- calls ----------------------------------------------------------------------
    def call(self, fr, e, record=True):
        fn = self.ev(fr, e.func)
        if fn is None:
            self.unknown += record
            return None
        outs = []
        for f in fn:
            if f == 'partial' and e.args:
                inner = self.ev(fr, e.args[0])
                args = tuple(self.ev(fr, a) for a in e.args[1:])
                kw = tuple((k.arg, self.ev(fr, k.value)) for k in e.keywords if k.arg)
                outs.append(None if inner is None else frozenset(Partial(g, args, kw) for g in inner))
                continue
            args = [self.ev(fr, a) for a in e.args if not isinstance(a, ast.Starred)]
            star = any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords)
            if isinstance(f, (Func, Bound, Closure, Partial)):
                outs.append(self.enter(f, args, {k.arg: self.ev(fr, k.value) for k in e.keywords if k.arg}, star, e, fr, record))
            else:
                outs.append(None)
        return union(outs) if outs else None

    def enter(self, f, args, kw, star, node, fr, record):
        while isinstance(f, Partial):
            args, kw, f = list(f.args) + list(args), dict(dict(f.kw), **kw), f.func
        outer, own = None, None
        if isinstance(f, Closure):
            func, outer = f.func, f.frame
        elif isinstance(f, Bound):
            func, own = f.func, f.owner
        elif isinstance(f, Func):
            func = f
        else:
            return None
        pos = func.params()
        bound = {}
        names = list(pos)
        if func.cls is not None and func.parent is None and func.kind != 'staticmethod' and names and own is not False:
            first = names.pop(0)
            if isinstance(own, Cls) and func.kind in ('classmethod', 'decorated'):
                bound[first] = frozenset([own])
            elif isinstance(own, tuple):
                bound[first] = frozenset([own]) if func.kind in ('method', 'property') else frozenset([own[1]])
            elif func.kind in ('classmethod', 'decorated'):
                bound[first] = frozenset([func.cls])
            else:
                bound[first] = frozenset([('self', func.cls)])
        if not star:
            for n, v in zip(names, args):
                bound[n] = v
            for k, v in kw.items():
                if k in func.all_params():
                    bound[k] = v
            for n, d in func.defaults().items():
                if n not in bound:
                    bound[n] = self.ev(Frame(_Top(func.module), {}), d)
        for n in func.all_params():
            bound.setdefault(n, None)
        if record:
            self.seen.append((func, bound, node, fr.func))
            if not self.stop(func):
                self.walk(func, bound, outer)
            return self.answer(func, bound, outer)
        return self.answer(func, bound, outer)

    def answer(self, func, bound, outer, depth=[0]):
        """the function or constant a call gives back"""
        if depth[0] > 6 or self.stop(func):
            return None
        if isinstance(func.node, ast.Lambda):
            return self.ev(Frame(func, bound, outer), func.node.body)
        if func.is_generator():
            return None
        depth[0] += 1
        try:
            fr = Frame(func, bound, outer)
            vals = [self.ev(fr, n.value) for n in walk_own(func.node) if isinstance(n, ast.Return) and n.value is not None]
            return union(vals) if vals else None
        finally:
            depth[0] -= 1

    def walk(self, func, bound, outer=None):
        key = (func.qual, tuple(sorted((k, hash(v)) for k, v in bound.items())), id(outer))
        if key in self.done or len(self.done) > 4000:
            return
        self.done.add(key)
        fr = Frame(func, bound, outer)
        body = [func.node.body] if isinstance(func.node, ast.Lambda) else func.node.body
        for s in body:
            self.scan(fr, s)

    def truth(self, fr, test):
        v = self.ev(fr, test)
        if v and all(isinstance(x, tuple) and x[0] == 'c' for x in v):
            t = {bool(x[1]) for x in v}
            if len(t) == 1:
                return t.pop()
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Is, ast.IsNot)):
            a, b = self.ev(fr, test.left), self.ev(fr, test.comparators[0])
            if a and b and len(a) == len(b) == 1 and all(isinstance(x, tuple) and x[0] == 'c' for x in a | b):
                return (a == b) == isinstance(test.ops[0], ast.Is)
        return None

    def scan(self, fr, n):
        if isinstance(n, FUNCS + (ast.ClassDef,)):
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.If, ast.IfExp)):
            t = self.truth(fr, n.test)
            self.scan(fr, n.test)
            for branch, want in ((n.body, True), (n.orelse, False)):
                if t is None or t == want:
                    for s in branch if isinstance(branch, list) else [branch]:
                        self.scan(fr, s)
            return
        if isinstance(n, ast.Assert):
            return
        for c in ast.iter_child_nodes(n):
            self.scan(fr, c)
        if isinstance(n, ast.Call):
            self.call(fr, n)
            # a function handed to something unknown is taken to be called there
            fn = self.ev(fr, n.func)
            if fn is None or not any(isinstance(x, (Func, Bound, Closure, Partial)) for x in fn):
                for a in list(n.args) + [k.value for k in n.keywords]:
                    v = self.ev(fr, a.value if isinstance(a, ast.Starred) else a)
                    for x in v or ():
                        if isinstance(x, (Func, Bound, Closure, Partial)):
                            self.enter(x, [], {}, True, n, fr, True)
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            v = self.ev(fr, n)
            for x in v or ():
                if isinstance(x, Bound) and x.func.kind == 'property':
                    self.enter(x, [], {}, True, n, fr, True)


class Bound:
    def __init__(self, func, owner):
        self.func, self.owner = func, owner
        self.key = (func.qual, owner.name if isinstance(owner, Cls) else owner)

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, other):
        return isinstance(other, Bound) and self.key == other.key


class Partial:
    def __init__(self, func, args, kw):
        self.func, self.args, self.kw = func, args, kw
        self.key = (func, args, kw)

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, other):
        return isinstance(other, Partial) and self.key == other.key


class _Top:
    """stands for the body of a module"""

    def __init__(self, module):
        self.module, self.nested, self.node, self.qual, self.name = module, (), module.tree, module.name + '.<module>', '<module>'


def entry(program, eng, func, stop, owner=None):
    """the call tree of an operation called with its own arguments"""
    t = CallTree(program, eng, stop)
    bound = {n: frozenset([('p', n)]) for n in func.all_params()}
    if func.cls is not None and func.parent is None and func.kind != 'staticmethod' and func.params():
        c = owner or func.cls
        bound[func.params()[0]] = frozenset([c]) if func.kind in ('classmethod', 'decorated') else frozenset([('self', c)])
    t.walk(func, bound)
    return t
