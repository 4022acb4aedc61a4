"""C29: all arithmetic is exact."""
import ast

from ..absint import kinds_of
from ..core import Finding
from ..program import walk_own
from .c06 import parents
from .c33 import falls
from ..rules import events, finding


def zero_test(t, text):
    """how a comparison of `text` with a number splits the integers: 'neg' when it is true of the negative ones only,
    'pos' when it is false of all of them, None when it is no such test"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return {'neg': 'pos', 'pos': 'neg'}.get(zero_test(t.operand, text))
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        return None
    l, op, r = t.left, type(t.ops[0]), t.comparators[0]
    if isinstance(l, ast.Constant):
        l, r = r, l
        op = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(op, op)
    if ast.unparse(l) != text or not isinstance(r, ast.Constant) or not isinstance(r.value, int):
        return None
    if (op is ast.Lt and r.value <= 0) or (op is ast.LtE and r.value < 0) or (op is ast.Eq and r.value < 0):
        return 'neg'
    if (op is ast.GtE and r.value >= 0) or (op is ast.Gt and r.value >= -1) or (op is ast.Eq and r.value >= 0):
        return 'pos'
    return None


def sign_on_path(f, node, text):
    """'neg', 'pos', 'split' (some test tells the signs apart on the way here) or None (no test at all)"""
    up = parents(f)
    n, found = node, None
    while n is not f.node:
        above = up[n]
        tests = []
        if isinstance(above, (ast.If, ast.IfExp, ast.While)) and n is not above.test:
            body = above.body if isinstance(above.body, list) else [above.body]
            tests.append((above.test, n in body))
        if isinstance(above, ast.BoolOp):
            tests += [(x, isinstance(above.op, ast.And)) for x in above.values[:above.values.index(n)]]
        for block in ('body', 'orelse', 'finalbody'):
            stmts = getattr(above, block, None)
            if isinstance(stmts, list) and n in stmts:
                for s in stmts[:stmts.index(n)]:
                    if isinstance(s, ast.Assert):
                        tests.append((s.test, True))
                    elif isinstance(s, ast.If) and not s.orelse and not falls(s.body):
                        tests.append((s.test, False))
        for t, taken in tests:
            for x in ast.walk(t):
                k = zero_test(x, text)
                if k is None:
                    continue
                whole = x is t or (isinstance(t, ast.BoolOp) and x in t.values and isinstance(t.op, ast.And) == taken)
                if not whole:
                    found = found or 'split'
                elif (k == 'neg') == taken:
                    return 'neg'
                else:
                    found = 'pos'
        n = above
    return found


class Powers:
    """may an integer be raised to a negative power, which is a fraction?"""

    def __init__(self, world):
        self.w, self.p, self.e = world, world.program, world.eng

    def negative(self, f, e, node, depth=0):
        """why an exponent may be negative, or None when nothing says so"""
        if depth > 8:
            return None
        if isinstance(e, ast.Constant):
            return 'it is negative' if isinstance(e.value, int) and e.value < 0 else None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            if isinstance(e.operand, ast.Constant):
                return 'it is negative' if e.operand.value else None
            sign = sign_on_path(f, node, ast.unparse(e.operand))
            if sign in ('neg', 'split'):
                return None
            return '%s is negated' % ast.unparse(e.operand)
        if isinstance(e, ast.IfExp):
            return self.negative(f, e.body, e.body, depth + 1) or self.negative(f, e.orelse, e.orelse, depth + 1)
        if isinstance(e, (ast.Name, ast.Subscript, ast.Attribute)):
            sign = sign_on_path(f, node, ast.unparse(e))
            if sign == 'neg':
                return '%s is known to be negative here' % ast.unparse(e)
            if sign is not None:
                return None
        if isinstance(e, ast.Subscript) and self.exponents(e.value):
            return '%s is an exponent of a Laurent polynomial' % ast.unparse(e)
        if isinstance(e, ast.Name):
            flow = self.w.flow(f)
            if self.turned(f, e.id):
                return None
            for d in sorted(flow.uses.get(e, ()), key=lambda d: d.id):
                if d.kind == 'assign' and d.whole is not None:
                    g = self.p.func_of_node.get(d.scope.node, f)
                    why = self.negative(g, d.whole, d.whole, depth + 1)
                    if why:
                        return why
                elif d.kind != 'param' and d.kind != 'assign':
                    for x in d.exprs:
                        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('values', 'items') and self.exponents(x.func.value):
                            return '%s is an exponent of a Laurent polynomial' % e.id
        return None

    def turned(self, f, name):
        """is the name set to its own opposite where a test of the function found it negative?"""
        for x in walk_own(f.node):
            if isinstance(x, ast.If) and any(zero_test(t, name) == 'neg' for t in ast.walk(x.test)):
                for s in x.body:
                    if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                        v = s.value
                        if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.USub) and ast.unparse(v.operand) == name or \
                                isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'abs' and [ast.unparse(a) for a in v.args] == [name]:
                            return True
        return False

    def exponents(self, e):
        ks = kinds_of(self.e.types.get(e, ()))
        return ks == {'inst:HashableDict'}

    def check(self):
        n = 0
        for f in self.p.funcs.values():
            for x in walk_own(f.node):
                if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Pow):
                    base, exp = x.left, x.right
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'pow' and len(x.args) == 2:
                    base, exp = x.args
                else:
                    continue
                n += 1
                ks = kinds_of(self.e.types.get(base, ()))
                if not ks & {'i', 'b'}:
                    continue
                why = self.negative(f, exp, x)
                if why:
                    yield f, x, why
        self.count = n


def check(world):
    p, e = world.program, world.eng
    out = []
    pw = Powers(world)
    for f, n, why in pw.check():
        out.append(Finding('fraction', f, n, 'an integer raised to a negative power is a float: %s' % why, ast.unparse(n)[:60]))
    for kind, qual, node, detail, ctx in events(e, 'float'):
        out.append(finding(p, 'float', qual, node, 'inexact arithmetic: %s' % detail[0], detail[0], e.chain(ctx)))
    ops = sum(isinstance(n, (ast.BinOp, ast.AugAssign)) for f in p.funcs.values() for n in walk_own(f.node))
    consts = sum(isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) for f in p.funcs.values() for n in walk_own(f.node))
    cov = dict(world.engine_stats())
    cov.update({'powers': pw.count, 'arithmetic_expressions': ops, 'numeric_literals': consts})
    meta = {
        'explanation': 'Whole-program type analysis: no reachable expression may produce a float (literal, true division of '
                       'integers or of operands not known to be polynomials, float()/math functions that return floats, '
                       'decimal or numpy numbers).',
        'assumptions': ['callers pass integers and polynomials as numbers, not floats'],
    }
    return out, cov, meta
