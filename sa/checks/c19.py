"""C19: every variable has been given a value, on every path, before it is read."""
import ast

from ..core import Finding
from ..flow import FUNCS
from ..paths import Paths
from ..program import walk_own
from .c18 import short

# functions whose cases are complete for reasons that lie outside their code
COMPLETE = {'FState._inverse_terminal_transition': ('n in values', '-n in values')}   # n being their greatest absolute value
COMPS = (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)


def locals_of(node):
    """names local to a function, parameters included; those declared global or nonlocal left out"""
    a = node.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
    params = set(out)
    outer = set()
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, FUNCS + (ast.ClassDef,)):
            out.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, COMPS):
            # the targets of a comprehension are its own; walrus targets are not
            stack += [y for y in ast.walk(n) if isinstance(y, ast.NamedExpr)]
            continue
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            outer |= set(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(x.asname or x.name).split('.')[0] for x in n.names}
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        stack += ast.iter_child_nodes(n)
    return out - outer, params


class Defined(Paths):
    """states keep the names that have a value"""

    def __init__(self, f):
        self.locals, self.params = locals_of(f.node)
        self.unset = {}
        self.examined = set()
        self.quiet = 0
        self.diagnosing = {id(x) for t in walk_own(f.node) if isinstance(t, ast.Try) for h in t.handlers if raises(h.body) for x in ast.walk(h)}
        super().__init__(f)

    def start(self):
        return frozenset(self.params)

    def widen(self, sets):
        return frozenset().union(*sets)

    def reads(self, e, st):
        have = set(st[1])
        if isinstance(e, FUNCS + (ast.ClassDef,)):
            for d in e.decorator_list:
                self.look(d, have, st[0])
            return frozenset(have | {e.name})
        if isinstance(e, (ast.Import, ast.ImportFrom)):
            return frozenset(have | {(x.asname or x.name).split('.')[0] for x in e.names})
        if isinstance(e, (ast.Global, ast.Nonlocal, ast.Pass)):
            return st[1]
        if isinstance(e, ast.AugAssign) and isinstance(e.target, ast.Name):
            self.read(e.target, have, st[0])
        self.look(e, have, st[0])
        for n in own(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                have.add(n.id)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Del):
                have.discard(n.id)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                have.add(n.name)
        return frozenset(have)

    def step(self, s, st):
        out = super().step(s, st)
        if isinstance(s, ast.If):
            bodies, rest = [s.body], s.orelse
            while len(rest) == 1 and isinstance(rest[0], ast.If):
                bodies, rest = bodies + [rest[0].body], rest[0].orelse
            if len(bodies) > 3 and not rest:
                given = frozenset.intersection(*[frozenset(x.id for b in body for x in own(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)) for body in bodies])
                out = [(fa, have | given) for fa, have in out]
        return out

    def look(self, e, have, facts):
        for n in own(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del)):
                self.read(n, have, facts)
            elif isinstance(n, ast.NamedExpr):
                have.add(n.target.id)

    def read(self, n, have, facts):
        if n.id in self.locals and id(n) not in self.diagnosing:
            self.examined.add(n)
            if n.id not in have and (short(self.f) not in COMPLETE or any(facts.get(k) is True for k in COMPLETE[short(self.f)])):
                self.unset.setdefault(n, facts)


def own(e):
    """nodes evaluated with e, in no particular order; bodies of nested functions left out, comprehension variables are their own"""
    stack = [(e, frozenset())]
    while stack:
        n, bound = stack.pop()
        if isinstance(n, ast.Name) and n.id in bound:
            continue
        yield n
        if isinstance(n, FUNCS + (ast.ClassDef,)):
            continue
        if isinstance(n, ast.Lambda):
            stack += [(d, bound) for d in n.args.defaults + [k for k in n.args.kw_defaults if k]]
            continue
        if isinstance(n, COMPS):
            bound = bound | {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        stack += [(c, bound) for c in ast.iter_child_nodes(n)]


def raises(body):
    return bool(body) and isinstance(body[-1], ast.Raise)


def check(world):
    p = world.program
    out = []
    reads = names = paths = 0
    for f in p.funcs.values():
        if not isinstance(f.node, FUNCS):
            continue
        d = Defined(f)
        reads += len(d.examined)
        names += len(d.locals)
        paths += d.steps
        for n, facts in sorted(d.unset.items(), key=lambda x: (x[0].lineno, x[0].col_offset)):
            out.append(Finding('no-value', f, n, '%s is read here, but there is a path on which it was never given a value' % n.id, n.id))
    cov = {'functions': len(p.funcs), 'local_variables': names, 'reads_examined': reads, 'steps_followed': paths}
    meta = {
        'explanation': 'Definite assignment along the paths of every function: branches with the facts their tests establish (contradictory '
                       'combinations left out), loops for no, one and two rounds, except handlers from the state before the try. Handlers that end '
                       'by raising again are not judged, nor are variables read by nested functions when they run.',
        'assumptions': ['a collection that is asked whether it has one element and whether it has more is not empty',
                        'a chain of four or more cases, each of which gives a variable a value, is complete'],
    }
    return out, cov, meta
