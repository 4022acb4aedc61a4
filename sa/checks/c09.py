"""C09: nothing is changed while it is being gone through."""
import ast

from ..absint import kind_cls, kinds_of
from ..canon import bind_args, canon, definitions, roots
from ..cfg import CFG, own_nodes
from ..core import Finding
from ..flow import FUNCS, MUT
from ..program import walk_own
from .c06 import callee, is_bound

VIEWS = {'items', 'keys', 'values'}
LAZY = {'enumerate', 'zip', 'reversed', 'iter', 'map', 'filter', 'chain'}
# a list that is only added to at its end while it is gone through is a worklist
WORKLIST = {'append', 'extend'}
HARMLESS = set()


class Iterating:
    def __init__(self, world):
        self.w, self.p, self.e = world, world.program, world.eng
        self.loops = self.changes = 0
        self.summary = {}
        for _ in range(5):
            before = {k: set(v) for k, v in self.summary.items()}
            for f in self.p.funcs.values():
                self.summary[f.qual] = self.changed_params(f)
            if before == self.summary:
                break

    def gone_through(self, f, flow, e, depth=0):
        """the collections themselves (not copies) that going through e goes through"""
        if depth > 6:
            return
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and e.func.attr in VIEWS and not e.args:
                yield from self.gone_through(f, flow, e.func.value, depth + 1)
            elif isinstance(e.func, ast.Name) and e.func.id in LAZY and self.p.resolve_name(f.module, e.func.id) is None:
                for x in e.args:
                    yield from self.gone_through(f, flow, x, depth + 1)
            return
        if isinstance(e, ast.GeneratorExp):
            yield from self.gone_through(f, flow, e.generators[0].iter, depth + 1)
            return
        if isinstance(e, ast.IfExp):
            yield from self.gone_through(f, flow, e.body, depth + 1)
            yield from self.gone_through(f, flow, e.orelse, depth + 1)
            return
        if isinstance(e, (ast.Name, ast.Attribute, ast.Subscript)):
            if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
                return
            yield e
            if isinstance(e, ast.Name):
                ds = definitions(flow, e)
                if len(ds) == 1:
                    d = next(iter(ds))
                    if d.kind == 'assign' and isinstance(d.whole, (ast.Call, ast.Name, ast.Attribute, ast.Subscript, ast.GeneratorExp)):
                        yield from self.gone_through(self.p.func_of_node.get(d.scope.node, f), d.scope, d.whole, depth + 1)

    def direct(self, e):
        """(changed expression, how, key) for changes of size made by evaluating e"""
        for n in own_nodes(e):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and n.func.attr not in HARMLESS:
                yield n.func.value, n.func.attr, n.args[0] if n.args and n.func.attr == '__setitem__' else None, n
            elif isinstance(n, ast.AugAssign):
                yield n.target, 'augmented', None, n
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                yield n.value, '__setitem__', n.slice, n
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Del):
                yield n.value, '__delitem__', None, n

    def changed_params(self, f):
        out = set()
        if not isinstance(f.node, FUNCS):
            return out
        flow = self.w.flow(f)
        for s in walk_own(f.node):
            if not isinstance(s, ast.stmt) or isinstance(s, FUNCS):
                continue
            for x, how, key, n in self.direct_simple(s):
                for q in self.params(flow, f, x):
                    ks = kinds_of(self.e.types.get(x, ()))
                    if how in WORKLIST and ks <= {'list', 'deque'}:
                        continue
                    if how in ('__setitem__', 'augmented') and not (ks & {'dict', 'ddict', 'set'} or any(self.dictlike(k) for k in ks)):
                        continue
                    out.add(q)
            for n in own_nodes(s):
                if isinstance(n, ast.Call):
                    for x in self.through_call(f, n):
                        out |= self.params(flow, f, x)
        return out

    def direct_simple(self, s):
        if isinstance(s, (ast.If, ast.While, ast.For, ast.With, ast.Try)):
            return []
        return list(self.direct(s))

    def through_call(self, f, n):
        t = callee(self.w, f, n)
        if t is None or not self.summary.get(t.qual):
            return
        b = dict(bind_args(t, n, is_bound(t, n)) or {})
        if t.kind == 'method' and isinstance(n.func, ast.Attribute) and is_bound(t, n) and t.params():
            b[t.params()[0]] = n.func.value
        for q, x in b.items():
            if q in self.summary[t.qual] and isinstance(x, ast.AST):
                yield x

    def params(self, flow, f, x):
        if isinstance(x, ast.Name):
            return {d.name for d in definitions(flow, x) if d.kind == 'param' and d.scope.node is f.node}
        return set()

    def dictlike(self, k):
        c = kind_cls(k)
        cls = self.p.classes.get(c) if c else None
        return cls is not None and any('dict' in b.ext_bases for b in cls.mro())

    def same(self, flow, a, b):
        if type(a) is not type(b) and not (isinstance(a, ast.Name) or isinstance(b, ast.Name)):
            return False
        if isinstance(a, ast.Name) and isinstance(b, ast.Name):
            if a.id == b.id:
                ra, rb = roots(definitions(flow, a)), roots(definitions(flow, b))
                return bool(ra & rb) or not (ra or rb)
        if isinstance(a, (ast.Attribute, ast.Subscript)) and isinstance(b, type(a)) and ast.dump(a, False) == ast.dump(b, False).replace('Store()', 'Load()'):
            return True
        ca, cb = canon(flow, a), canon(flow, b)
        return ca == cb and ca[0] in ('attr', 'item', 'param', 'defs', 'global')

    def judge(self, f, flow, over, target, n, x, how, key, out, seen):
        self.changes += 1
        for c in over:
            xx = ast.parse(ast.unparse(x), mode='eval').body if not isinstance(getattr(x, 'ctx', None), ast.Load) and not isinstance(x, ast.Name) else x
            if not (self.same(flow, c, x) or not isinstance(c, ast.Name) and ast.unparse(c) == ast.unparse(xx)):
                continue
            ks = kinds_of(self.e.types.get(c, ())) or kinds_of(self.e.types.get(x, ()))
            listish = ks and ks <= {'list', 'deque', 't', 's'}
            if listish and how in WORKLIST | {'__setitem__', 'augmented'}:
                continue
            if not ks:
                continue
            if how == 'augmented' and not ks & {'set', 'dict', 'ddict'}:
                continue
            if how in ('__setitem__', 'setdefault', 'augmented') and key is not None and names_of(key) and names_of(key) <= target:
                continue      # an entry that is there already gets a new value
            if id(n) not in seen:
                seen.add(id(n))
                out.append(Finding('changed-in-loop', f, n, '%s is changed (%s) while it is being gone through' % (ast.unparse(x), how), '%s %s' % (ast.unparse(x), how)))

    def check(self, f, out):
        flow = self.w.flow(f)
        cfg = CFG(f.node)
        head = {n.ast: n for n in cfg.nodes if n.kind == 'iter'}
        node_of = {}
        for n in cfg.nodes:
            if n.ast is not None and n.kind != 'iter':
                for x in own_nodes(n.ast):
                    node_of.setdefault(x, n)
        seen = set()
        for s in walk_own(f.node):
            if isinstance(s, ast.For):
                over = list(self.gone_through(f, flow, s.iter))
                if not over:
                    continue
                self.loops += 1
                target = names_of(s.target) if not isinstance(s.target, (ast.Tuple, ast.List)) else names_of(s.target.elts[0])
                h = head[s]
                # the loop's collection is evaluated anew before the step is reached again
                first = {n for n in cfg.nodes if n.kind == 'over' and n.ast is s.iter}
                for b in s.body:
                    for st in ast.walk(b):
                        if not isinstance(st, ast.stmt) or isinstance(st, FUNCS):
                            continue
                        parts = [st] if not isinstance(st, (ast.If, ast.While, ast.For, ast.With, ast.Try)) else \
                            [getattr(st, k) for k in ('test', 'iter') if hasattr(st, k)]
                        for part in parts:
                            here = node_of.get(part)
                            if here is None or h not in cfg.reach(here, first):
                                continue
                            for x, how, key, n in self.direct(part):
                                self.judge(f, flow, over, target, n, x, how, key, out, seen)
                            for n in own_nodes(part):
                                if isinstance(n, ast.Call):
                                    for x in self.through_call(f, n):
                                        self.judge(f, flow, over, target, n, x, 'in ' + ast.unparse(n.func), None, out, seen)
            for c in ast.walk(s) if isinstance(s, ast.stmt) and not isinstance(s, (ast.If, ast.While, ast.For, ast.With, ast.Try) + FUNCS) else ():
                if isinstance(c, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                    g = c.generators[0]
                    over = [o for k in c.generators for o in self.gone_through(f, flow, k.iter)]
                    self.loops += 1
                    target = names_of(g.target)
                    for part in ([c.key, c.value] if isinstance(c, ast.DictComp) else [c.elt]) + [t for k in c.generators for t in k.ifs]:
                        for x, how, key, n in self.direct(part):
                            self.judge(f, flow, over, target, n, x, how, key, out, seen)


def names_of(e):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}


def check(world):
    p = world.program
    it = Iterating(world)
    out = []
    n = 0
    for f in p.funcs.values():
        if isinstance(f.node, FUNCS):
            n += 1
            it.check(f, out)
    cov = dict(world.engine_stats())
    cov.update({'functions_checked': n, 'loops_over_collections': it.loops, 'changes_inside_loops': it.changes,
                'functions_changing_a_parameter': sum(bool(v) for v in it.summary.values())})
    meta = {
        'explanation': 'For every loop and comprehension that goes through a set, dictionary or list itself (or a live view of it): no '
                       'change of its size, in the body or in a library function called with it, from which the loop goes on (control '
                       'flow graph; a change followed by break or return is allowed, so is adding to the end of a list).',
        'assumptions': ['two names denote one collection when they have the same definition (must-alias); other aliases are not followed'],
    }
    return out, cov, meta
