"""C17: no round of a loop and no recursive call leaves everything as it was."""
import ast

from ..absint import kinds_of
from ..canon import bind_args, definitions
from ..cfg import own_nodes
from ..core import Finding
from ..facts import ALL, assume
from ..flow import FUNCS, MUT
from ..program import walk_own
from .c06 import callee, is_bound, own_params
from .c10 import free_names
from .c11 import Effects

COMPS = (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)
LOOPS = (ast.For, ast.AsyncFor, ast.While)
CHANGED = object()


def names_in(e):
    """names an expression looks at, those bound by its own comprehensions left out"""
    bound = {x.id for c in ast.walk(e) if isinstance(c, COMPS) for g in c.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)} - bound


def root(e):
    while isinstance(e, (ast.Attribute, ast.Subscript, ast.Starred)):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


class Loop:
    def __init__(self, world, f, loop, eff):
        self.w, self.p, self.e, self.f, self.loop, self.eff = world, world.program, world.eng, f, loop, eff
        self.alias = {}
        self.carry = {}
        self.flow = world.flow(f)
        self.inside = set(map(id, ast.walk(loop)))
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign):
                r = root(n.value) if isinstance(n.value, (ast.Name, ast.Attribute, ast.Subscript)) else None
                for t in n.targets:
                    if r and isinstance(t, ast.Name):
                        self.join(r, t.id)
            elif isinstance(n, (ast.For, ast.comprehension)):
                r = root(n.iter)
                for t in ast.walk(n.target):
                    if r and isinstance(t, ast.Name):
                        self.join(r, t.id)
        self.relevant = self.looked_at()

    def find(self, x):
        while self.alias.get(x, x) != x:
            x = self.alias[x]
        return x

    def join(self, a, b):
        self.alias[self.find(a)] = self.find(b)

    def free(self, name):
        """names a nested function looks at, or the name itself"""
        for g in self.f.nested:
            if g.name == name:
                return {x.id for x in free_names(g.node)} | {name}
        return {name}

    def looked_at(self):
        seen = set(names_in(self.loop.test))
        own = [n for s in self.loop.body for n in own_nodes(s)]
        for n in own:
            if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
                seen |= names_in(n.test)
            elif isinstance(n, (ast.For, ast.AsyncFor)):
                seen |= names_in(n.iter)
            elif isinstance(n, ast.Match):
                seen |= names_in(n.subject)
        todo = True
        while todo:
            before = set(seen)
            for x in before:
                seen |= self.free(x)
            for n in own:
                if isinstance(n, ast.Assign) and any({y.id for y in ast.walk(t) if isinstance(y, ast.Name)} & seen for t in n.targets):
                    seen |= names_in(n.value)
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and root(n.target) in seen and n.value is not None:
                    seen |= names_in(n.value)
                elif isinstance(n, (ast.For, ast.AsyncFor)) and {y.id for y in ast.walk(n.target) if isinstance(y, ast.Name)} & seen:
                    seen |= names_in(n.iter)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and root(n.func.value) in seen:
                    for a in n.args:
                        seen |= names_in(a)
            todo = seen != before
        return seen

    def hits(self, name):
        return name is not None and any(self.find(name) == self.find(r) for r in self.relevant)

    def changes(self, e):
        """can evaluating e (an expression or simple statement) change something the loop looks at?"""
        for n in own_nodes(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id in self.relevant:
                if not self.same(e, n) and (self.carried(n.id) or isinstance(e, ast.AugAssign)):
                    return True
            elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)) and self.hits(root(n)):
                return True
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Name) and n.func.id == 'next' and self.p.resolve_name(self.f.module, 'next') is None:
                    return True
                t = callee(self.w, self.f, n)
                if isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                    ks = kinds_of(self.e.types.get(n.func.value, ()))
                    if (t is None or ks & {'list', 'set', 'dict', 'ddict', 'deque', 'any'}) and (self.hits(root(n.func.value)) or root(n.func.value) is None):
                        return True
                if t is not None:
                    if t.parent is not None and (self.nonlocals(t) & self.relevant or self.inner_changes(t)):
                        return True
                    ch = self.eff.changes[t.qual]
                    if '*' in ch:
                        return True
                    if ch:
                        b = dict(bind_args(t, n, is_bound(t, n)) or {})
                        if isinstance(n.func, ast.Attribute) and t.params():
                            b.setdefault(t.params()[0], n.func.value)
                        if any(not isinstance(b.get(q), ast.AST) or self.hits(root(b[q])) for q in ch):
                            return True
                elif isinstance(n.func, ast.Attribute) and self.hits(root(n.func.value)) and \
                        kinds_of(self.e.types.get(n.func.value, ())) & {'any', 'gen', 'iter'}:
                    return True
        return False

    def carried(self, name):
        """does one round see the value another round, or the code before the loop, left in this variable?"""
        if name not in self.carry:
            ans = any(name == x.id for g in self.f.nested for x in free_names(g.node))
            for n in ast.walk(self.loop):
                if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load):
                    ds = definitions(self.flow, n)
                    if not ds or any(id(d.node) not in self.inside for d in ds):
                        ans = True
            self.carry[name] = ans
        return self.carry[name]

    def same(self, e, n):
        """x = x"""
        return isinstance(e, ast.Assign) and isinstance(e.value, ast.Name) and e.value.id == n.id and n in e.targets

    def nonlocals(self, t):
        return {v for s in ast.walk(t.node) if isinstance(s, (ast.Nonlocal, ast.Global)) for v in s.names}

    def inner_changes(self, t):
        own = set(self.w.flow(t).locals)
        for n in ast.walk(t.node):
            x = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                x = root(n.func.value)
            elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                x = root(n)
            if x is not None and x not in own and self.hits(x):
                return True
        return False

    def rounds(self, stmts, facts):
        """facts of the paths that change nothing and fall through; self.back collects those that go round"""
        live = [facts]
        for s in stmts:
            nxt = []
            for fa in live:
                nxt += self.step(s, fa)
            live = nxt[:64]
            if not live:
                break
        return live

    def step(self, s, fa):
        if isinstance(s, ast.If):
            if self.changes(s.test):
                return []
            out = []
            yes, no = assume(fa, s.test, True), assume(fa, s.test, False)
            if yes is not None:
                out += self.rounds(s.body, yes)
            if no is not None:
                out += self.rounds(s.orelse, no)
            return out
        if isinstance(s, LOOPS):
            inner = [s.iter] if not isinstance(s, ast.While) else [s.test]
            if any(self.changes(x) for x in inner) or self.any_change(s.body) or self.any_change(s.orelse):
                return []
            if not isinstance(s, ast.While) and any(isinstance(x, ast.Name) and x.id in self.relevant for x in ast.walk(s.target)):
                pass        # a loop variable starts afresh in every round
            if any(isinstance(x, (ast.Return, ast.Raise)) for b in s.body for x in ast.walk(b)):
                return []
            return [fa]
        if isinstance(s, (ast.With, ast.AsyncWith)):
            return [] if any(self.changes(i.context_expr) for i in s.items) else self.rounds(s.body, fa)
        if isinstance(s, ast.Try):
            parts = [s.body, s.orelse, s.finalbody] + [h.body for h in s.handlers]
            return [] if any(self.any_change(b) or leaves(b) for b in parts) else [fa]
        if isinstance(s, ast.Match):
            if self.any_change([s]) or leaves([s]):
                return []
            return [fa]
        if isinstance(s, (ast.Return, ast.Raise, ast.Break)):
            return []
        if isinstance(s, ast.Continue):
            self.back.append(fa)
            return []
        if isinstance(s, FUNCS + (ast.ClassDef, ast.Pass)):
            return [fa]
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and exits(s.value):
            return []
        return [] if self.changes(s) else [fa]

    def any_change(self, stmts):
        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, (ast.stmt,)) and not isinstance(n, (ast.If, ast.While, ast.For, ast.With, ast.Try, ast.Match) + FUNCS) and self.changes(n):
                    return True
                if isinstance(n, (ast.If, ast.While)) and self.changes(n.test) or isinstance(n, ast.For) and self.changes(n.iter):
                    return True
                if isinstance(n, ast.For) and any(isinstance(x, ast.Name) and x.id in self.relevant and self.outside(x.id, n) for x in ast.walk(n.target)):
                    return True
        return False

    def outside(self, name, loop):
        """is a loop variable looked at outside its own loop?"""
        inside = set(map(id, ast.walk(loop)))
        return any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) and id(x) not in inside for x in ast.walk(self.loop))

    def stuck(self):
        self.back = []
        if self.changes(self.loop.test):
            return None
        start = assume({}, self.loop.test, True)
        if start is None:
            return None
        ends = self.rounds(self.loop.body, start) + self.back
        return ends[0] if ends else None


def leaves(stmts):
    return any(isinstance(x, (ast.Return, ast.Raise, ast.Break)) for s in stmts for x in ast.walk(s))


def exits(call):
    n = call.func.id if isinstance(call.func, ast.Name) else call.func.attr if isinstance(call.func, ast.Attribute) else ''
    return n in ('exit', 'quit', '_exit', 'abort')


def describe(facts):
    out = []
    for k, v in facts.items():
        if isinstance(k, str):
            out.append(k if v else 'not ' + k)
        elif k[1].startswith('len(') or v == frozenset(ALL) or k[0] == '0' and '(' not in k[1] and v == frozenset('<>'):
            continue
        else:
            sign = {'<': '<', '>': '>', '=': '==', '<=': '<=', '=>': '>=', '<>': '!='}[''.join(sorted(v))]
            out.append('%s %s %s' % (k[0], sign, k[1]))
    return ' and '.join(out)[:160]


def unchanged_call(world, f, n, t, eff):
    """is the call n of t, made in f == t, one with exactly the arguments f was given?"""
    flow = world.flow(f)

    def given(e, q):
        return isinstance(e, ast.Name) and e.id == q and all(d.kind == 'param' and d.scope.node is f.node for d in definitions(flow, e)) and bool(definitions(flow, e))
    bound = is_bound(t, n)
    b = bind_args(t, n, bound)
    if b is None or f.node.args.vararg or f.node.args.kwarg:
        return False
    ps = t.params()
    if bound:
        recv = n.func.value if isinstance(n.func, ast.Attribute) else None
        if t.kind in ('method', 'decorated') and not (isinstance(recv, ast.Name) and given(recv, ps[0])):
            return False
        ps = ps[1:]
    return all(isinstance(b.get(q), ast.AST) and given(b[q], q) for q in ps) and set(b) <= set(f.all_params())


def check(world):
    p = world.program
    eff = Effects(world)
    out = []
    loops = calls = self_calls = paths = 0
    for f in p.funcs.values():
        if not isinstance(f.node, FUNCS):
            continue
        for n in walk_own(f.node):
            if isinstance(n, ast.While):
                loops += 1
                l = Loop(world, f, n, eff)
                facts = l.stuck()
                if facts is not None:
                    out.append(Finding('no-progress', f, n, 'a round with %s changes nothing the loop looks at (%s): it never ends'
                                       % (describe(facts) or 'any values', ', '.join(sorted(names_in(n.test))) or 'nothing'), ast.unparse(n.test)[:60]))
            elif isinstance(n, ast.Call):
                t = callee(world, f, n)
                if t is None:
                    continue
                calls += 1
                if t is f:
                    self_calls += 1
                    if not eff.changes[f.qual] and not touches_globals(world, f) and unchanged_call(world, f, n, t, eff):
                        out.append(Finding('no-progress', f, n, '%s calls itself with exactly the arguments it was given' % f.name, f.name))
    cov = {'while_loops': loops, 'library_calls': calls, 'recursive_calls': self_calls, 'functions': len(p.funcs)}
    meta = {
        'explanation': 'For every while loop: the variables its test and its branches look at, closed under the assignments in its body; '
                       'then every path once round the body (inner loops taken as possibly changing whatever they can change, contradictory '
                       'combinations of tests left out) must assign or change one of them, or leave. No function calls itself with all of its own '
                       'unchanged parameters while it changes nothing else.',
        'assumptions': ['a change counts as progress: that it goes in the right direction is not decided'],
    }
    return out, cov, meta


def touches_globals(world, f):
    flow = world.flow(f)
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            r = root(n)
            if r is None or r not in flow.locals or any(d.kind == 'param' for d in flow.defs.get(r, ())):
                return True
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
            r = root(n.func.value)
            if r is None or r not in flow.locals:
                return True
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            return True
    return False
