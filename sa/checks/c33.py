"""C33: an answer that may be None is looked at before it is used."""
import ast

from ..absint import kinds_of
from ..core import Finding
from ..flow import FUNCS
from ..program import walk_own
from .c06 import callee, is_bound, parents
from ..canon import bind_args


def none_exits(f):
    """the places where a function with an answer ends without one: list of (guards, node)

    guards: the tests of the branches around it, as (test, taken)."""
    if not isinstance(f.node, FUNCS):
        return []
    if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(f.node)):
        return []
    rets = [n for n in walk_own(f.node) if isinstance(n, ast.Return)]
    if not any(n.value is not None and not is_none(n.value) for n in rets):
        return []
    up = parents(f)
    out = []
    for n in rets:
        if n.value is None or is_none(n.value):
            out.append((guards(f, n, up), n))
        elif isinstance(n.value, ast.IfExp):
            for x, taken in ((n.value.body, True), (n.value.orelse, False)):
                if is_none(x):
                    out.append((guards(f, n, up) + [(n.value.test, taken)], n))
    # several cases and a silent end: the cases are meant to be exhaustive; one case and a silent end: it is partial
    if falls(f.node.body) and (len(rets) == 1 or one_case(f) or says_none(f)):
        out.append((trail(f.node.body), f.node))
    return out


def says_none(f):
    """is it one of the operations for which there being no answer is an answer?"""
    from .c18 import PARTIAL, short
    return short(f) in PARTIAL


def one_case(f):
    """does the body end in a search, or in the one case it has?"""
    def answers(s):
        return any(isinstance(x, ast.Return) for x in ast.walk(s))
    cases = [s for s in f.node.body if isinstance(s, ast.If) and answers(s)]
    last = f.node.body[-1]
    if isinstance(last, (ast.For, ast.While)):
        return answers(last) and not last.orelse and not cases
    return isinstance(last, ast.If) and not last.orelse and cases == [last]


def is_none(e):
    return isinstance(e, ast.Constant) and e.value is None


def guards(f, n, up):
    out = []
    while n is not f.node:
        above = up[n]
        if isinstance(above, (ast.If, ast.IfExp)) and n is not above.test:
            body = above.body if isinstance(above.body, list) else [above.body]
            out.append((above.test, n in body))
        n = above
    return out


def falls(block):
    """can control reach the end of the block?"""
    for s in block:
        if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return False
        if isinstance(s, ast.If) and s.orelse and not falls(s.body) and not falls(s.orelse):
            return False
        if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value and not any(isinstance(x, ast.Break) for x in ast.walk(s)):
            return False
        if isinstance(s, (ast.With, ast.Try)) and not falls(s.body):
            return False
        if isinstance(s, ast.Assert) and isinstance(s.test, ast.Constant) and not s.test.value:
            return False
    return True


def trail(block):
    """tests known to be false when the block is left at its end"""
    return [(s.test, False) for s in block if isinstance(s, ast.If) and not s.orelse and not falls(s.body)]


def value(e, env):
    """truth of a test under known arguments, or None"""
    if isinstance(e, ast.Constant):
        return bool(e.value)
    if isinstance(e, ast.Name):
        return env.get(e.id)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        v = value(e.operand, env)
        return None if v is None else not v
    if isinstance(e, ast.BoolOp):
        vs = [value(x, env) for x in e.values]
        stop = isinstance(e.op, ast.Or)
        if stop in vs:
            return stop
        return None if None in vs else not stop
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and is_none(e.comparators[0]) and isinstance(e.left, ast.Name):
        v = env.get(('none', e.left.id))
        if v is not None and isinstance(e.ops[0], (ast.Is, ast.Eq)):
            return v
        if v is not None and isinstance(e.ops[0], (ast.IsNot, ast.NotEq)):
            return not v
    return None


def constant_env(world, t, call, bound):
    env = {}
    given = bind_args(t, call, bound)
    if given is None:
        return env
    assigned = {n.id for n in walk_own(t.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    for q in t.all_params():
        e = given.get(q, t.defaults().get(q))
        if q not in assigned and isinstance(e, ast.Constant):
            env[q] = bool(e.value)
            env[('none', q)] = e.value is None
        elif q not in assigned and q in given and isinstance(e, (ast.Tuple, ast.List, ast.BinOp)):
            env[('none', q)] = False
        elif q not in assigned and q in given and e in world.eng.types and 'n' not in kinds_of(world.eng.types[e]):
            env[('none', q)] = False
    return env


def may_be_none(world, t, call, bound):
    env = constant_env(world, t, call, bound)
    for gs, n in none_exits(t):
        if all(value(g, env) in (None, taken) for g, taken in gs):
            return n
    return None


def uses(e, up):
    """how a value at e is consumed, when that needs a real value"""
    n = up.get(e)
    if isinstance(n, ast.Attribute) and n.value is e:
        return '.%s' % n.attr
    if isinstance(n, ast.Subscript) and n.value is e:
        return 'a subscript'
    if isinstance(n, ast.Call) and n.func is e:
        return 'a call'
    if isinstance(n, (ast.For, ast.comprehension)) and n.iter is e:
        return 'a loop over it'
    if isinstance(n, ast.BinOp):
        return 'arithmetic'
    if isinstance(n, ast.UnaryOp) and not isinstance(n.op, ast.Not):
        return 'arithmetic'
    if isinstance(n, ast.Starred):
        return 'unpacking'
    if isinstance(n, ast.Assign) and n.value is e and any(isinstance(t, (ast.Tuple, ast.List)) for t in n.targets):
        return 'unpacking'
    if isinstance(n, ast.Compare) and any(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) for o in n.ops):
        return 'an order comparison'
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('len', 'sorted', 'sum', 'max', 'min', 'list', 'tuple', 'set', 'abs', 'int', 'range', 'reversed', 'enumerate', 'zip', 'any', 'all', 'iter', 'next') and e in n.args:
        return n.func.id + '()'
    return None


def tested(f, n, name, up):
    """is the name looked at on the way to n?"""
    def mentions(e):
        return any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(e))
    inner = n
    while n is not f.node:
        above = up[n]
        if isinstance(above, (ast.If, ast.IfExp, ast.While)) and n is not above.test and mentions(above.test):
            return True
        if isinstance(above, ast.BoolOp):
            if any(mentions(v) for v in above.values[:above.values.index(n)] if v is not n):
                return True
        if isinstance(above, ast.comprehension) and n is not above.iter and False:
            return True
        if isinstance(above, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            if not isinstance(n, ast.comprehension) and any(mentions(t) for g in above.generators for t in g.ifs):
                return True
        for block in ('body', 'orelse', 'finalbody'):
            stmts = getattr(above, block, None)
            if isinstance(stmts, list) and n in stmts:
                for s in stmts[:stmts.index(n)]:
                    if isinstance(s, ast.Assert) and mentions(s.test):
                        return True
                    if isinstance(s, (ast.If, ast.While)) and mentions(s.test):
                        return True
                    if isinstance(s, ast.Try):
                        return True
        if isinstance(above, ast.Try):
            return True
        n = above
    return inner is None


def check(world):
    p = world.program
    world.eng
    found = []
    partial = {f.qual for f in p.funcs.values() if none_exits(f)}
    handed = {}       # functions that hand a partial answer on as their own
    grew = True
    while grew:
        grew = False
        for f in p.funcs.values():
            if f.qual in partial or not isinstance(f.node, FUNCS):
                continue
            for n in walk_own(f.node):
                if isinstance(n, ast.Return) and isinstance(n.value, ast.Call):
                    t = callee(world, f, n.value)
                    if t is None or t.qual not in partial:
                        continue
                    if t.qual in handed or may_be_none(world, t, n.value, is_bound(t, n.value)) is not None:
                        partial.add(f.qual)
                        handed[f.qual] = n
                        grew = True
                        break
    ncalls = ndirect = nnamed = 0
    for f in p.funcs.values():
        up = parents(f)
        flow = world.flow(f)
        for c in walk_own(f.node):
            if isinstance(c, ast.Call):
                t = callee(world, f, c)
                bound = t is not None and is_bound(t, c)
            elif isinstance(c, ast.Attribute) and isinstance(c.ctx, ast.Load):
                t, bound = prop(world, c), True
            else:
                continue
            if t is None or t.qual not in partial:
                continue
            ncalls += 1
            where = may_be_none(world, t, c if isinstance(c, ast.Call) else ast.Call(func=c, args=[], keywords=[]), bound)
            if where is None:
                where = handed.get(t.qual)
            if where is None:
                continue
            how = uses(c, up)
            if how:
                ndirect += 1
                found.append(Finding('none', f, c, 'the answer of %s may be None (line %d) and is used at once (%s)' % (t.qual, where.lineno, how), '%s %s' % (t.name, how)))
                continue
            st = up.get(c)
            if not (isinstance(st, ast.Assign) and st.value is c and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name)):
                continue
            name = st.targets[0].id
            for n, ds in list(flow.uses.items()):
                if not isinstance(n, ast.Name) or n.id != name or n not in up or not any(d.node is st for d in ds):
                    continue
                how = uses(n, up)
                if not how:
                    continue
                nnamed += 1
                if not tested(f, n, name, up):
                    found.append(Finding('none', f, n, '%s may be None (%s can end without an answer, line %d) and is used without a look (%s)' % (name, t.qual, where.lineno, how), '%s %s' % (t.name, how)))
    return found, {'partial_operations': len(partial), 'calls_of_partial_operations': ncalls, 'uses_examined': ndirect + nnamed}, {
        'explanation': 'An operation that can end without an answer (return None, or the end of the body, next to real answers) is partial. '
                       'At every call of a partial operation whose constant arguments do not rule the empty exits out, the answer must '
                       'not be dereferenced, iterated, unpacked, compared in order or calculated with, unless it is tested on the way there.',
        'assumptions': []}


def prop(world, c):
    from ..absint import kind_cls, kinds_of
    names = [kind_cls(k) for k in kinds_of(world.eng.types.get(c.value, ()))]
    fs = {world.program.classes[x].find(c.attr) for x in names if x in world.program.classes}
    fs.discard(None)
    if len(fs) == 1:
        t = fs.pop()
        if getattr(t, 'kind', None) == 'property':
            return t
    return None
