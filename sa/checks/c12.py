"""C12: an option given as zero is not an option left out."""
import ast

from ..absint import FALSE, NONE, TRUE
from ..program import walk_own
from ..rules import events, finding


def origins(flow, n, seen):
    """the parameters whose very value the name n may hold"""
    defs = flow.uses.get(n)
    out = set()
    if not defs:
        f = flow.parent
        while f is not None and n.id not in f.locals:
            f = f.parent
        defs = f.defs.get(n.id, ()) if f is not None and n.id not in flow.locals else ()
    for d in defs:
        if d in seen:
            continue
        seen.add(d)
        if d.kind == 'param':
            out.add((d.scope.node, d.name))
        elif d.kind == 'assign' and d.whole is not None:
            out |= carried(d.scope, d.whole, seen)
    return out


def carried(flow, e, seen):
    if isinstance(e, ast.Name):
        return origins(flow, e, seen)
    if isinstance(e, ast.IfExp):
        return carried(flow, e.body, seen) | carried(flow, e.orelse, seen)
    if isinstance(e, ast.NamedExpr):
        return carried(flow, e.value, seen)
    if isinstance(e, ast.BoolOp):
        return set().union(*[carried(flow, x, seen) for x in e.values])
    return set()


def optional_number(v):
    return NONE in v and any(a[0] == 'i' or a in (TRUE, FALSE) for a in v)


def is_none(x, want):
    return isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.Is, ast.Eq) if want else (ast.IsNot, ast.NotEq)) and \
        isinstance(x.comparators[0], ast.Constant) and x.comparators[0].value is None


def is_zero(x, want):
    """x compares something against zero so that zero (and, of the natural numbers, nothing else) is `want`"""
    if not (isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.comparators[0], ast.Constant)):
        return False
    op, c = type(x.ops[0]), x.comparators[0].value
    if c is None or isinstance(c, (bool, str)):
        return False
    return (op, c) in (((ast.Eq, 0), (ast.LtE, 0), (ast.Lt, 1)) if want else ((ast.NotEq, 0), (ast.Gt, 0), (ast.GtE, 1)))


def lumped(n):
    """expressions for which this test gives None and 0 the same answer"""
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
        r = n.comparators[0]
        if isinstance(r, (ast.Tuple, ast.List, ast.Set)):
            vals = [x.value for x in r.elts if isinstance(x, ast.Constant)]
            if None in vals and any(v == 0 and v is not None for v in vals) and len(vals) == len(r.elts):
                yield n.left
    if isinstance(n, ast.BoolOp):
        want = isinstance(n.op, ast.Or)
        zero = {ast.unparse(x.left) for x in n.values if is_zero(x, want)}
        for x in n.values:
            if is_none(x, want) and ast.unparse(x.left) in zero:
                yield x.left


def check(world):
    p, e = world.program, world.eng
    out = []
    tests = 0
    values = {}
    for c in e.ctx_list:
        if c.func is not None:
            for q, v in c.args:
                values.setdefault((c.func.node, q), set()).update(v)
    for kind, qual, node, detail, ctx in events(e, 'truth-none'):
        f = p.funcs.get(qual)
        if f is None:
            continue
        tests += 1
        falsy = detail[0].split(',')
        if 'i' not in falsy and 'b' not in falsy:
            continue
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'bool' and node.args:
            node = node.args[0]
        hit = sorted(q for g, q in carried(world.flow(f), node, set()) if optional_number(values.get((g, q), ())))
        if not hit:
            continue
        out.append(finding(p, 'zero-as-missing', qual, node, 'the option %s may be 0 or None here and both count as false' % hit[0],
                           hit[0], e.chain(ctx)))
    for f in p.funcs.values():
        for n in walk_own(f.node):
            for x in lumped(n):
                tests += 1
                hit = sorted(q for g, q in carried(world.flow(f), x, set()) if optional_number(values.get((g, q), ())))
                if hit:
                    out.append(finding(p, 'zero-as-missing', f.qual, n, 'this test gives the option %s the same answer for 0 as for None' % hit[0], hit[0]))
    optional = [(f.qual, q) for f in p.funcs.values() for q, d in f.defaults().items() if isinstance(d, ast.Constant) and d.value is None]
    nonetests = sum(1 for f in p.funcs.values() for n in walk_own(f.node) if isinstance(n, ast.Compare) and len(n.ops) == 1
                    and isinstance(n.ops[0], (ast.Is, ast.IsNot)) and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None)
    cov = dict(world.engine_stats())
    cov.update({'optional_parameters': len(optional), 'is_none_tests': nonetests, 'ambiguous_truth_tests_examined': tests})
    meta = {
        'explanation': 'Whole-program type analysis: every truth test on a value that can be both None and a number is found, '
                       'and none may test a parameter (or a copy of one) that stands for an option the caller may leave out.',
        'assumptions': ['callers pass values of the documented types (sa/contracts.py)'],
    }
    return out, cov, meta
