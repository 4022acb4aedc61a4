"""C08: what can be gone through only once is gone through only once."""
import ast

from ..absint import kinds_of, site_kind
from ..canon import bind_args, definitions
from ..cfg import CFG
from ..core import Finding
from ..flow import FUNCS
from ..program import walk_own
from .c06 import callee, is_bound, own_params

EMPTY = frozenset()
WHOLE = {'list', 'tuple', 'set', 'frozenset', 'sorted', 'sum', 'max', 'min', 'dict', 'enumerate', 'zip', 'map', 'filter', 'reversed', 'Counter',
         'deque', 'chain', 'product', 'permutations', 'combinations', 'combinations_with_replacement', 'reduce', 'OrderedDict', 'fsum', 'prod', 'any', 'all'}
TAKES = {'extend', 'update', 'join', 'union', 'intersection', 'difference', 'intersection_update', 'difference_update', 'issubset', 'issuperset',
         'extendleft', 'from_iterable', 'symmetric_difference', 'fromkeys'}
ONCE = {'gen', 'iter'}
COMPS = (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)


class Once:
    def __init__(self, world):
        self.w, self.p, self.e = world, world.program, world.eng
        self.consumes = {}      # (func qual, param)
        self.sites = 0
        self.once_sites = 0
        for _ in range(6):
            before = dict(self.consumes)
            for f in self.p.funcs.values():
                for q in self.taken_params(f):
                    self.consumes[(f.qual, q)] = True
            if before == self.consumes:
                break

    def taken_params(self, f):
        if not isinstance(f.node, FUNCS):
            return
        flow = self.w.flow(f)
        for s in walk_own(f.node):
            if isinstance(s, ast.stmt):
                for n, rep in self.taken(f, s, shallow=True):
                    for d in definitions(flow, n):
                        if d.kind == 'param' and d.scope.node is f.node:
                            yield d.name
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Name):
                for d in definitions(flow, s.iter):
                    if d.kind == 'param' and d.scope.node is f.node:
                        yield d.name

    # ------------------------------------------------------------- consumption
    def taken(self, f, a, rep=False, shallow=False, over=False):
        """(Name, repeatedly?) for every name whose value is gone through when a is evaluated"""
        def names(x, rep):
            if isinstance(x, ast.Name):
                yield x, rep
            elif isinstance(x, ast.IfExp):
                yield from names(x.body, rep)
                yield from names(x.orelse, rep)
            elif isinstance(x, ast.BoolOp):
                for y in x.values:
                    yield from names(y, rep)

        def visit(n, rep):
            if isinstance(n, FUNCS + (ast.ClassDef,)):
                return
            if isinstance(n, ast.Lambda):
                yield from visit(n.body, True)
                return
            if shallow and isinstance(n, ast.stmt) and n is not a:
                return
            if isinstance(n, COMPS):
                for i, g in enumerate(n.generators):
                    inner = rep or i > 0
                    yield from names(g.iter, inner)
                    yield from visit(g.iter, inner)
                    for t in g.ifs:
                        yield from visit(t, True)
                for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                    yield from visit(x, True)
                return
            if isinstance(n, ast.Call):
                fname = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''
                if (isinstance(n.func, ast.Name) and fname in WHOLE and self.p.resolve_name(f.module, fname) in (None,)) or \
                        (isinstance(n.func, ast.Name) and fname in WHOLE and isinstance(self.p.resolve_name(f.module, fname), tuple)) or \
                        (isinstance(n.func, ast.Attribute) and fname in TAKES | ({'chain', 'product', 'combinations', 'permutations'})):
                    for x in n.args:
                        yield from names(x, rep)
                else:
                    t = callee(self.w, f, n)
                    if t is not None:
                        b = bind_args(t, n, is_bound(t, n)) or {}
                        for q, x in b.items():
                            if isinstance(x, ast.AST) and (t.qual, q) in self.consumes:
                                yield from names(x, rep)
            elif isinstance(n, ast.Starred) and isinstance(n.ctx, ast.Load):
                yield from names(n.value, rep)
            elif isinstance(n, ast.YieldFrom):
                yield from names(n.value, rep)
            elif isinstance(n, ast.Compare):
                for o, x in zip(n.ops, n.comparators):
                    if isinstance(o, (ast.In, ast.NotIn)):
                        yield from names(x, rep)
            elif isinstance(n, ast.Assign) and any(isinstance(t, (ast.Tuple, ast.List)) for t in n.targets):
                yield from names(n.value, rep)
            for c in ast.iter_child_nodes(n):
                yield from visit(c, rep)
        if over:
            yield from names(a, rep)
        yield from visit(a, rep)

    def once(self, f, n):
        """is the value of this name, for some caller, something that can be gone through only once?"""
        atoms = self.e.types.get(n, ())
        self.sites += 1
        if not (kinds_of(atoms) & ONCE):
            return False
        self.once_sites += 1
        for d in definitions(self.w.flow(f), n):
            # iter(...) is taken on purpose, to be advanced by hand
            if isinstance(d.whole, ast.Call) and isinstance(d.whole.func, ast.Name) and d.whole.func.id == 'iter' and by_hand(f, n.id):
                return False
        return True

    # -------------------------------------------------------------- functions
    def check(self, f, out):
        cfg = CFG(f.node)
        flow = self.w.flow(f)
        partial = {}
        for n in walk_own(f.node):
            if isinstance(n, ast.For):
                partial[n.iter] = any(isinstance(x, ast.Break) for s in n.body for x in ast.walk(s))
        said = set()

        def step(n, spent, report=False):
            a = n.ast
            if a is None:
                return spent
            if n.kind == 'iter':
                for x in ast.walk(a.target):
                    if isinstance(x, ast.Name):
                        spent = frozenset(s for s in spent if s[0] != x.id)
                return spent
            now = set()
            for x, rep in self.taken(f, a, over=n.kind == 'over' and not partial.get(a)):
                if not self.once(f, x):
                    continue
                mine = x.id in flow.locals
                inner = any(isinstance(c, COMPS + (ast.Lambda,)) and binds(c, x.id) for c in ast.walk(a))
                if inner:
                    continue
                again = rep or any(s[0] == x.id for s in spent) or x.id in now
                if again and report and id(x) not in said:
                    said.add(id(x))
                    out.append(Finding('twice', f, x, '%s can be gone through only once, and is gone through again here' % x.id, x.id))
                if mine:
                    now.add(x.id)
            for x in handed(a):
                if not self.once(f, x) or x.id not in flow.locals:
                    continue
                if (any(s[0] == x.id for s in spent) or x.id in now) and report and id(x) not in said:
                    said.add(id(x))
                    out.append(Finding('spent', f, x, '%s has been gone through already when it is handed on here: whoever goes through it finds nothing' % x.id, x.id))
                if not isinstance(a, (ast.Return, ast.Assign)):
                    now.add(x.id)
            spent = spent | {(x,) for x in now}
            for x in ast.walk(a):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    spent = frozenset(s for s in spent if s[0] != x.id)
            return spent

        before = cfg.forward(EMPTY, step, lambda a, b: a | b)
        for n in cfg.nodes:
            if n in before:
                step(n, before[n], True)


def by_hand(f, name):
    """is the iterator advanced by next, by tests for members, or in pieces?"""
    def here(x):
        return isinstance(x, ast.Name) and x.id == name
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and (n.func.id not in WHOLE and any(here(x) for x in n.args) or sum(here(x) for x in n.args) > 1):
            return True
        if isinstance(n, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) and here(x) for o, x in zip(n.ops, n.comparators)):
            return True
        if isinstance(n, ast.For) and here(n.iter) and any(isinstance(x, (ast.Break, ast.Return)) for s in n.body for x in ast.walk(s)):
            return True
        if isinstance(n, (ast.List, ast.Tuple, ast.BinOp, ast.Attribute)) and any(here(x) for x in ast.iter_child_nodes(n)):
            return True
    return False


def handed(a):
    """names whose value is put into a collection or attribute, returned or yielded by a"""
    def names(x):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            yield x
        elif isinstance(x, (ast.Tuple, ast.List, ast.Set)):
            for y in x.elts:
                yield from names(y)
        elif isinstance(x, ast.Dict):
            for y in x.values:
                yield from names(y)
        elif isinstance(x, ast.IfExp):
            yield from names(x.body)
            yield from names(x.orelse)
    stack = [a]
    while stack:
        n = stack.pop()
        if isinstance(n, FUNCS + (ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.Return, ast.Yield)) and n.value is not None:
            yield from names(n.value)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'add', 'insert', 'appendleft', 'setdefault'):
            for x in n.args:
                yield from names(x)
        elif isinstance(n, ast.Assign):
            if any(isinstance(t, (ast.Subscript, ast.Attribute)) for t in n.targets) or isinstance(n.value, (ast.Tuple, ast.List, ast.Dict)):
                yield from names(n.value)
        elif isinstance(n, ast.AugAssign) and isinstance(n.value, (ast.List, ast.Tuple)):
            yield from names(n.value)
        stack.extend(ast.iter_child_nodes(n))


def binds(c, name):
    if isinstance(c, ast.Lambda):
        return any(x.arg == name for x in c.args.args)
    return any(isinstance(x, ast.Name) and x.id == name for g in c.generators for x in ast.walk(g.target))


def check(world):
    p, e = world.program, world.eng
    o = Once(world)
    out = []
    funcs = tests = slots = 0
    for f in p.funcs.values():
        if not isinstance(f.node, FUNCS):
            continue
        funcs += 1
        o.check(f, out)
        for n in walk_own(f.node):
            t = None
            if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
                t = n.test
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                t = n.operand
            if t is None:
                continue
            for x in ([t] if not isinstance(t, ast.BoolOp) else t.values):
                tests += 1
                ks = kinds_of(e.types.get(x, ()))
                if ks and ks <= ONCE:
                    out.append(Finding('always-true', f, x, '%s is tested for being empty, but it is a generator, which never looks empty' % ast.unparse(x)[:50], ast.unparse(x)[:50]))
    for k, v in sorted(e.heap.items(), key=lambda kv: str(kv[0])):
        if k[0][0] != 'attr':
            continue
        slots += 1
        for a in v:
            if a[0] == 'o' and site_kind(a[1]) in ONCE:
                cls, name = k[0][1], k[1]
                c = p.classes.get(cls)
                fn = c.methods.get('__init__') if c is not None else None
                out.append(Finding('kept', fn or cls, getattr(fn, 'node', None), 'the attribute %s.%s can be gone through only once' % (cls, name), '%s.%s' % (cls, name),
                                   file=c.module.file if c is not None else None))
                break
    cov = dict(world.engine_stats())
    cov.update({'functions_checked': funcs, 'traversals': o.sites, 'traversals_of_one_shot_values': o.once_sites,
                'consuming_parameters': len(o.consumes), 'truth_tests': tests, 'attribute_slots': slots})
    meta = {
        'explanation': 'Typestate over control flow graphs with inferred types: a name that may hold a generator, map, filter, zip or '
                       'other one-shot iterator is spent once it has been gone through (in a loop, a comprehension, a consuming builtin '
                       'or a library function that goes through its parameter), and may not be gone through again on any path, nor '
                       'inside a comprehension or lambda that repeats, nor be handed on afterwards (returned, yielded, put into a collection); no object attribute holds a one-shot iterator; none is tested for being empty.',
        'assumptions': ['callers pass lists and tuples, not one-shot iterators', 'iter(...) taken explicitly is advanced by hand on purpose'],
    }
    return out, cov, meta
