"""C11: assertions only check."""
import ast

from ..absint import kinds_of
from ..canon import bind_args, definitions
from ..cfg import CFG, own_nodes
from ..core import Finding
from ..flow import FUNCS, MUT
from ..program import walk_own
from ..rules import is_self_only, lazy_slots
from .c06 import callee, is_bound, parents

BROAD = {'AssertionError', 'Exception', 'BaseException'}
OUTSIDE = {'print', 'input', 'open', 'exec', 'exit', 'quit'}


class Effects:
    """what a function does besides answering: the parameters it changes, state it keeps, input and output"""

    def __init__(self, world):
        self.w, self.p, self.e = world, world.program, world.eng
        self.slots = {a for _, a in lazy_slots(world.program)}
        self.changes = {f.qual: set() for f in self.p.funcs.values()}      # params, or '*' for anything else that lasts
        self.asserts = {f.qual: False for f in self.p.funcs.values()}
        todo = True
        while todo:
            todo = False
            for f in self.p.funcs.values():
                new = self.of(f)
                a = self.asserts[f.qual] or self.may_assert(f, walk_own(f.node))
                if not new <= self.changes[f.qual] or a != self.asserts[f.qual]:
                    self.changes[f.qual] |= new
                    self.asserts[f.qual] = a
                    todo = True

    def of(self, f):
        out = set()
        for n in walk_own(f.node):
            for x, what in self.direct(f, n):
                out |= self.owner(f, x)
        return out

    def may_assert(self, f, nodes):
        for n in nodes:
            if isinstance(n, ast.Assert):
                return True
            if isinstance(n, ast.Call):
                t = callee(self.w, f, n)
                if t is not None and self.asserts[t.qual]:
                    return True
        return False

    def owner(self, f, x):
        """whose thing does a change of x alter? a parameter's name, '*' for something that lasts, or nobody's"""
        if x == '*':
            return {'*'}
        attr = False
        while isinstance(x, (ast.Attribute, ast.Subscript, ast.Call)):
            if isinstance(x, ast.Call):
                # a fresh answer
                return set()
            attr = True
            x = x.value
        if isinstance(x, ast.Name):
            flow = self.w.flow(f)
            ds = definitions(flow, x) if isinstance(x.ctx, ast.Load) else frozenset()
            out = set()
            for d in ds:
                if d.kind == 'param':
                    out.add(d.name if d.scope.node is f.node else '*')
            if not ds and x.id not in flow.locals:
                r = self.p.resolve_name(f.module, x.id)
                if isinstance(r, tuple) and r[0] == 'global':
                    return set()      # memo tables: what they may hold is C02's and C03's business
                out.add('*')
            return out
        return set()

    def direct(self, f, n):
        """(changed expression, what) for the effects of one node"""
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                ks = kinds_of(self.e.types.get(n.func.value, ()))
                t = callee(self.w, f, n)
                if t is None or ks & {'list', 'set', 'dict', 'ddict', 'deque'}:
                    if not ks or ks & {'list', 'set', 'dict', 'ddict', 'deque', 'any'}:
                        yield n.func.value, 'changes %s' % ast.unparse(n.func.value)
                    return
            if isinstance(n.func, ast.Name) and self.p.resolve_name(f.module, n.func.id) is None:
                if n.func.id == 'next' and n.args:
                    yield n.args[0], 'advances %s' % ast.unparse(n.args[0])
                elif n.func.id in OUTSIDE:
                    yield '*', 'calls %s' % n.func.id
                elif n.func.id == 'setattr':
                    yield '*', 'sets an attribute'
                return
            t = callee(self.w, f, n)
            if t is not None and self.changes[t.qual]:
                b = dict(bind_args(t, n, is_bound(t, n)) or {})
                if t.kind == 'method' and isinstance(n.func, ast.Attribute) and is_bound(t, n) and t.params():
                    b[t.params()[0]] = n.func.value
                for q in sorted(self.changes[t.qual]):
                    if q == '*':
                        yield '*', 'calls %s, which has an effect' % t.qual
                    elif isinstance(b.get(q), ast.AST):
                        yield b[q], 'calls %s, which changes %s' % (t.qual, ast.unparse(b[q]))
        elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            if isinstance(n, ast.Attribute) and n.attr in self.slots and is_self_only(f):
                return
            if isinstance(n, ast.Attribute) and f.name in ('__init__', '__new__'):
                return
            yield n.value, 'stores to %s' % ast.unparse(n)
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            ks = kinds_of(self.e.types.get(n.target, ()))
            if ks & {'list', 'set', 'dict'}:
                for d in self.w.flow(f).defs.get(n.target.id, ()):
                    if d.kind == 'param':
                        yield ast.Name(n.target.id, ast.Load()), 'changes %s' % n.target.id


def reraises(handler):
    """does every path through the handler end in an exception?"""
    fn = ast.FunctionDef(name='h', args=None, body=handler.body, decorator_list=[])
    cfg = CFG(fn) if not any(isinstance(x, (ast.Continue, ast.Break)) for s in handler.body for x in ast.walk(s)) else None
    if cfg is None:
        return False
    return all(isinstance(n.ast, ast.Raise) for n in cfg.nodes if any(m is cfg.exit for m, _ in n.succ))


def caught(h):
    """the broad exception names a handler answers to"""
    if h.type is None:
        return {'BaseException'}
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return {x for t in ts for x in [ast.unparse(t).split('.')[-1]] if x in BROAD}


def check(world):
    p = world.program
    fx = Effects(world)
    out = []
    n_asserts = n_handlers = n_calls = 0
    for f in p.funcs.values():
        flow = world.flow(f)
        up = parents(f)
        for n in walk_own(f.node):
            if isinstance(n, ast.Assert):
                n_asserts += 1
                mine = set(ast.walk(n))
                for part in (n.test, n.msg):
                    for x in (own_nodes(part) if part is not None else ()):
                        if isinstance(x, ast.Call):
                            n_calls += 1
                        if isinstance(x, ast.NamedExpr):
                            used = [y for y in ast.walk(f.node) if isinstance(y, ast.Name) and y.id == x.target.id and isinstance(y.ctx, ast.Load) and y not in mine]
                            if any(d.node is x or d.node in mine for y in used for d in flow.uses.get(y, ())):
                                out.append(Finding('binds', f, n, 'the assertion gives %s a value that is used later' % x.target.id, x.target.id))
                        for y, what in fx.direct(f, x):
                            if y != '*' and fresh(y, mine):
                                continue
                            out.append(Finding('effect', f, n, 'the assertion %s' % what, what))
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and kinds_of(world.eng.types.get(x, ())) & {'gen', 'iter'} and \
                                any(isinstance(y, ast.Name) and y.id == x.id and isinstance(y.ctx, ast.Load) and y not in mine and
                                    set(flow.uses.get(y, ())) & set(flow.uses.get(x, ())) for y in ast.walk(f.node)):
                            out.append(Finding('effect', f, n, 'the assertion uses up %s, which is used elsewhere' % x.id, 'uses up %s' % x.id))
            elif isinstance(n, ast.Try):
                for h in n.handlers:
                    n_handlers += 1
                    if not caught(h) or reraises(h):
                        continue
                    inner = (x for s in n.body for x in ast.walk(s))
                    if fx.may_assert(f, inner):
                        out.append(Finding('caught', f, h, 'what the operation answers depends on an assertion failing inside this try', caught(h).pop()))
            elif isinstance(n, ast.Name) and n.id == '__debug__':
                out.append(Finding('debug', f, n, 'asks whether assertions are switched on', ''))
    cov = dict(world.engine_stats())
    cov.update({'assertions': n_asserts, 'calls_inside_assertions': n_calls, 'exception_handlers': n_handlers,
                'functions_with_lasting_effects': sum(bool(v) for v in fx.changes.values())})
    meta = {
        'explanation': 'Effect analysis of every assertion: no change to a variable, collection or object that outlives the assertion, '
                       'directly or in a library function it calls (effect summaries over the call graph), no advancing or using up of '
                       'an iterator used elsewhere, no name bound for later; no exception handler turns a failed assertion into an answer; '
                       'nothing asks whether assertions are on.',
        'assumptions': ['valid input: an assertion that refuses bad input may be all that refuses it'],
    }
    return out, cov, meta


def fresh(y, mine):
    while isinstance(y, (ast.Attribute, ast.Subscript)):
        y = y.value
    return isinstance(y, (ast.Call, ast.List, ast.Set, ast.Dict, ast.ListComp, ast.SetComp, ast.DictComp)) and y in mine
