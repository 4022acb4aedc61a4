"""C10: a function that is handed out keeps what it was made with and answers every call alike."""
import ast

from ..absint import kinds_of
from ..canon import bind_args, definitions
from ..core import Finding
from ..flow import FUNCS, MUT
from ..program import Cls, walk_own
from .c06 import callee, is_bound, parents

NOW = {'sorted', 'min', 'max', 'map', 'filter', 'reduce', 'any', 'all', 'sum', 'list', 'tuple', 'set', 'dict', 'next', 'groupby', 'frozenset', 'accumulate', 'zip', 'enumerate', 'join', 'sort', 'update', 'extend'}
LAZY = {'map', 'filter', 'groupby', 'accumulate', 'zip', 'enumerate', 'chain', 'islice', 'starmap', 'takewhile', 'dropwhile'}
KEEP = {'append', 'add', 'insert', 'setdefault', '__setitem__', 'appendleft'}
WRAP = {'partial', 'lru_cache', 'cache', 'defaultdict', 'update_wrapper', 'wraps', 'partialmethod', 'property', 'staticmethod', 'classmethod', 'iter'}
LOOPS = (ast.For, ast.While)


def free_names(g):
    """Name nodes in a nested function that refer to something around it"""
    if isinstance(g, ast.GeneratorExp):
        bound = {x.id for c in g.generators for x in ast.walk(c.target) if isinstance(x, ast.Name)}
        roots = [g.elt] + [t for c in g.generators for t in c.ifs] + [c.iter for c in g.generators[1:]]
    else:
        a = g.args
        bound = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        roots = g.body if isinstance(g.body, list) else [g.body]
        outer = {n for s in roots for x in ast.walk(s) if isinstance(x, (ast.Nonlocal, ast.Global)) for n in x.names}
        for s in roots:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in outer:
                    bound.add(x.id)
                elif isinstance(x, FUNCS):
                    bound.add(x.name)
    for s in roots:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and x.id not in bound:
                yield x


class Handed:
    def __init__(self, world):
        self.w, self.p, self.e = world, world.program, world.eng
        self.memo = {}

    def uses(self, f, g, up):
        """nodes where the function value appears: the lambda itself, or loads of its name"""
        if isinstance(g, FUNCS):
            return [x for x in ast.walk(f.node) if isinstance(x, ast.Name) and x.id == g.name and isinstance(x.ctx, ast.Load) and not inside(x, g, up)]
        return [g]

    def passed(self, f, call, arg, depth):
        """whether the function called hands out what it is given here"""
        t = callee(self.w, f, call)
        if t is None or depth > 4:
            return False
        bound = bind_args(t, call, is_bound(t, call)) or {}
        value = arg.value if isinstance(arg, ast.keyword) else arg
        for q, a in bound.items():
            if a is not value:
                continue
            key = (t.qual, q)
            if key not in self.memo:
                self.memo[key] = False
                flow, up = self.w.flow(t), parents(t)
                for y in ast.walk(t.node):
                    if not (isinstance(y, ast.Name) and y.id == q and isinstance(y.ctx, ast.Load)):
                        continue
                    g = up.get(y)
                    while g is not t.node and not isinstance(g, FUNCS + (ast.Lambda, ast.GeneratorExp)):
                        g = up.get(g)
                    at = [y] if g is t.node else self.uses(t, g, up)
                    if any(self.fate(t, z, up, depth + 1) for z in at):
                        self.memo[key] = True
                        break
            if self.memo[key]:
                return True
        return False

    def fate(self, f, x, up, depth=0):
        """what becomes of the function value at x: 'return', 'yield', 'kept', or None when it is used on the spot"""
        if depth > 8:
            return None
        n, above = x, up.get(x)
        while above is not None:
            if isinstance(above, ast.Call):
                if n is above.func:
                    return None                      # called
                name = above.func.id if isinstance(above.func, ast.Name) else above.func.attr if isinstance(above.func, ast.Attribute) else ''
                if isinstance(above.func, ast.Attribute) and name in KEEP:
                    return 'kept'
                if name in LAZY:
                    n, above = above, up.get(above)
                    continue                         # as lazy as the function itself
                if name in NOW:
                    return None
                t = self.p.resolve_name(f.module, name) if isinstance(above.func, ast.Name) else None
                if not isinstance(t, Cls) and not name[:1].isupper() and name not in WRAP and not self.passed(f, above, n, depth):
                    return None
                n, above = above, up.get(above)      # part of the new object, or of the function made from it
                continue
            if isinstance(above, ast.keyword):
                n, above = above, up.get(above)
                continue
            if isinstance(above, ast.Return):
                return 'return'
            if isinstance(above, (ast.Yield, ast.YieldFrom)):
                return 'yield' if isinstance(above, ast.Yield) else None
            if isinstance(above, (ast.List, ast.Tuple, ast.Set, ast.Dict, ast.IfExp, ast.BoolOp, ast.Starred)):
                n, above = above, up.get(above)
                continue
            if isinstance(above, (ast.ListComp, ast.SetComp, ast.DictComp)):
                return 'kept'
            if isinstance(above, ast.Assign):
                for t in above.targets:
                    if isinstance(t, (ast.Subscript, ast.Attribute)):
                        return 'kept'
                names = {t.id for t in above.targets if isinstance(t, ast.Name)}
                flow = self.w.flow(f)
                best = None
                for y in ast.walk(f.node):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load) and y.id in names and any(d.node is above for d in flow.uses.get(y, ())):
                        best = best or self.fate(f, y, up, depth + 1)
                return best
            if isinstance(above, ast.comprehension):
                return None
            return None
        return None


def inside(x, g, up):
    while x is not None:
        if x is g:
            return True
        x = up.get(x)
    return False


def own_between(g, s, name, up):
    """whether the nonlocal statement s means a variable of g itself, or of a function inside it"""
    x = up.get(s)
    first = True
    while x is not None:
        if isinstance(x, FUNCS):
            if not first and any(isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, ast.Store) for y in walk_own(x)) \
                    and not any(isinstance(y, ast.Nonlocal) and name in y.names for y in walk_own(x)):
                return True
            first = False
        if x is g:
            return False
        x = up.get(x)
    return False


def check(world):
    p, e = world.program, world.eng
    h = Handed(world)
    out = []
    total = escaping = captured = defaults = 0
    for f in p.funcs.values():
        flow = world.flow(f)
        up = parents(f)
        # mutable defaults
        if isinstance(f.node, FUNCS + (ast.Lambda,)):
            for q, d in f.defaults().items():
                if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.SetComp, ast.DictComp)) or \
                        (isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ('list', 'dict', 'set', 'defaultdict')):
                    defaults += 1
                    for n in ast.walk(f.node):
                        base = None
                        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                            base = n.func.value
                        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                            base = n.value
                        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == q:
                            out.append(Finding('default', f, n, 'the default of %s is changed, and the next call starts from what is left' % q, q))
                        if isinstance(base, ast.Name) and any(d2.kind == 'param' and d2.name == q for d2 in definitions(flow, base)):
                            out.append(Finding('default', f, n, 'the default of %s is changed, and the next call starts from what is left' % q, q))
        made = [n for n in walk_own(f.node) if isinstance(n, FUNCS + (ast.Lambda, ast.GeneratorExp))]
        for g in made:
            total += 1
            name = getattr(g, 'name', None) or ('the lambda' if isinstance(g, ast.Lambda) else 'the generator')
            fates = {h.fate(f, x, up) for x in h.uses(f, g, up)} - {None}
            if not fates:
                continue
            escaping += 1
            loops, n = [], g
            while n is not f.node:
                n = up[n]
                if isinstance(n, LOOPS):
                    loops.append(n)
                elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp)):
                    loops.append(n)
                elif isinstance(n, (ast.GeneratorExp,)):
                    loops.append(n)
            said = set()
            for x in free_names(g):
                captured += 1
                if x.id in said:
                    continue
                if fates & {'kept', 'yield'}:
                    for l in loops:
                        if rebinds(l, x.id, g):
                            said.add(x.id)
                            out.append(Finding('late', f, g, '%s is kept beyond one round of the loop, but looks up %s only when it is called: all of them see the last %s' % (name, x.id, x.id),
                                               '%s %s' % (name, x.id)))
                            break
                if isinstance(g, ast.GeneratorExp) or x.id in said:
                    continue
                if isinstance(x.ctx, ast.Load) and local_to(f, flow, x.id) and kinds_of(e.types.get(x, ())) & {'gen', 'iter'}:
                    said.add(x.id)
                    out.append(Finding('used-up', f, g, '%s uses up %s in its first call' % (name, x.id), '%s %s' % (name, x.id)))
            if isinstance(g, FUNCS):
                for s in ast.walk(g):
                    if isinstance(s, ast.Nonlocal):
                        for v in s.names:
                            if not local_to(f, flow, v) or own_between(g, s, v, up):
                                continue
                            out.append(Finding('remembers', f, s, '%s changes %s of the call that made it: the next answer differs' % (name, v), '%s %s' % (name, v)))
            if not isinstance(g, ast.GeneratorExp):
                frees = {x.id for x in free_names(g) if local_to(f, flow, x.id)}
                roots = g.body if isinstance(g.body, list) else [g.body]
                for s in roots:
                    for n in ast.walk(s):
                        base = None
                        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT - {'setdefault'}:
                            base = n.func.value
                        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Del):
                            base = n.value
                        elif isinstance(n, ast.AugAssign) and isinstance(n.target, (ast.Attribute, ast.Subscript)):
                            base = n.target.value
                        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and kinds_of(e.types.get(n.value, ())) & {'list'}:
                            base = n.value
                        while isinstance(base, (ast.Attribute, ast.Subscript)):
                            base = base.value
                        if isinstance(base, ast.Name) and base.id in frees:
                            ks = kinds_of(e.types.get(n.func.value, ())) if isinstance(n, ast.Call) else {'list'}
                            if ks and not ks & {'list', 'set', 'dict', 'ddict', 'deque', 'any'}:
                                continue
                            out.append(Finding('remembers', f, n, '%s changes %s of the call that made it: the next answer differs' % (name, base.id), '%s %s' % (name, base.id)))
    cov = dict(world.engine_stats())
    cov.update({'nested_functions': total, 'handed_out': escaping, 'captured_names': captured, 'mutable_defaults': defaults})
    meta = {
        'explanation': 'Escape analysis of every nested function, lambda and generator expression: one that outlives the round of the loop '
                       'it is made in (kept in a collection, attribute or object, or yielded) captures nothing the loop rebinds; one that '
                       'is handed out at all rebinds and changes nothing it captured, and captures no one-shot iterator; no function '
                       'changes the collection that is its parameter\'s default.',
        'assumptions': ['filling a captured memo dictionary is not a change of the answer (C02, C03)'],
    }
    return out, cov, meta


def local_to(f, flow, name):
    g = f
    fl = flow
    while fl is not None:
        if name in fl.locals:
            return True
        fl = fl.parent
    return False


def rebinds(loop, name, g):
    if isinstance(loop, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
        return any(isinstance(x, ast.Name) and x.id == name for c in loop.generators for x in ast.walk(c.target))
    if isinstance(loop, ast.For) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(loop.target)):
        return True
    skip = set(ast.walk(g))
    for s in loop.body:
        stack = [s]
        while stack:
            x = stack.pop()
            if x in skip or isinstance(x, FUNCS + (ast.Lambda,)) and x is not s:
                continue
            if isinstance(x, FUNCS):
                continue
            if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store):
                return True
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            stack.extend(ast.iter_child_nodes(x))
    return False
