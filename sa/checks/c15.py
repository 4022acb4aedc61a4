"""C15: operations that are linear carry every term over with its coefficient as a factor, once."""
import ast

from ..core import Finding
from ..degree import BOT, Degree, Env, PLAIN, TOP, degrees
from ..program import walk_own

ONE = ('v', frozenset([1]))

# operation -> operands; {..} scaled together; the answer carries the factor once
TABLE = [
    ('Polynomial', '__add__', ['self', 'other']), ('Polynomial', '__sub__', ['self', 'other']), ('Polynomial', '__rsub__', ['self', 'other']),
    ('Polynomial', '__neg__', ['self']), ('Polynomial', '__mul__', ['self']), ('Polynomial', '__mul__', [1]), ('Polynomial', '__rmul__', ['self']),
    ('Polynomial', '__rmul__', [1]), ('Polynomial', '__truediv__', ['self']), ('Polynomial', '__floordiv__', ['self']),
    ('Polynomial', 'truncate', ['self']), ('Polynomial', 'coefficient', ['self']), ('Polynomial', 'substitute', ['self']),
    ('Polynomial', 'divide_linear', ['self']), ('Polynomial', '__call__', ['self']), ('Polynomial', 'constant_term', ['self']),
    ('Polynomial', '__getitem__', ['self']),
    ('Vector', '__add__', ['self', 'other']), ('Vector', '__radd__', ['self', 'other']), ('Vector', '__sub__', ['self', 'other']), ('Vector', '__rsub__', ['self', 'other']),
    ('Vector', '__mul__', ['self']), ('Vector', '__mul__', [1]), ('Vector', '__rmul__', ['self']), ('Vector', '__rmul__', [1]),
    ('Vector', '__floordiv__', ['self']), ('Vector', '__neg__', ['self']), ('Vector', '__getitem__', ['self']),
    ('SymmetricMonomial', '__mul__', [1]), ('SymmetricMonomial', 'symmetric_polynomial', [1]),
    ('SymmetricPolynomial', 'polynomial', ['self']), ('SymmetricPolynomial', 'truncate', ['self']),
    ('SymmetricPolynomial', 'lowest_degree_terms', ['self']), ('SymmetricPolynomial', 'highest_degree_terms', ['self']),
    ('SymmetricPolynomial', '_vectorize', ['tableaux']), ('SymmetricPolynomial', 'negate_beta', [1]),
    ('BoxOperator', '__add__', ['self', 'other']), ('BoxOperator', '__radd__', ['self', 'other']), ('BoxOperator', '__sub__', ['self', 'other']),
    ('BoxOperator', '__rsub__', ['self', 'other']), ('BoxOperator', '__neg__', ['self']), ('BoxOperator', '__mul__', ['self']), ('BoxOperator', '__mul__', [1]),
    ('BoxOperator', '__rmul__', ['self']), ('BoxOperator', '__rmul__', [1]), ('BoxOperator', 'filter', ['self']),
]
OPERATORS = ['operator_shifted_add', 'operator_AL', 'operator_AR', 'operator_shifted_row_remove', 'operator_shifted_column_remove', 'operator_R', 'operator_C']
# answers put together from the answers for smaller cases: (class, operation, what is added up)
RECURSIVE = [('Word', 'quasisymmetrize', 'quasisymmetrize')]
SUMS = [('Permutation', n, 'quasisymmetrize') for n in
        ('stable_grothendieck', 'signed_involution_stable_grothendieck', 'symplectic_stable_grothendieck', 'involution_stable_grothendieck')]


def check(world):
    p, eng = world.program, world.eng
    out, stats = {}, {'operations_judged': 0, 'runs': 0, 'undecided': [], 'functions_followed': 0, 'contributions': 0}
    followed = set()
    seen_runs = []

    def report(f, node, text, key):
        x = Finding('linear', f, node, text, key)
        out.setdefault((f.qual, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)), x)

    def explain(d, run_in, label, what, res, anchor):
        """the constructs an answer gets the wrong power from"""
        hits = [(f, n, ds) for f, n, ds, _ in d.contrib if ds and 1 not in ds]
        mixed = [(f, n) for f, n, _, _ in d.mixed]
        last = {}
        for f, n, ds in hits:
            last[id(n)] = (f, n, ds)
        hits = [h for h in last.values() if run_in(h[0])]
        bad = sorted(res - {1})
        times = ' or '.join({0: 'not at all'}.get(b, 'once' if b == 1 else '%d times' % b) for b in bad)
        if hits:
            for f, n, ds in hits:
                t = ' or '.join({0: 'not at all'}.get(b, '%d times' % b) for b in sorted(ds))
                report(f, n, '%s is linear in %s, but the coefficients enter this contribution %s' % (label, what, t), '%s: contribution' % label)
        elif mixed:
            f, n = mixed[0]
            report(f, n, '%s is linear in %s, but this adds up terms with and without their coefficients' % (label, what), '%s: sum' % label)
        else:
            report(anchor, anchor.node, '%s is linear in %s, but the coefficients enter the answer %s' % (label, what, times), '%s: answer' % label)

    def one(label, f, run, what):
        d = Degree(p, eng)
        stats['runs'] += 1
        v = run(d)
        followed.update(d.followed)
        seen_runs.append((d, label))
        stats['contributions'] += len({id(n) for _, n, _, _ in d.contrib})
        ds = degrees(v)
        if ds is None:
            stats['undecided'].append('%s in %s' % (label, what))
        elif ds - {1}:
            explain(d, lambda g: True, label, what, ds, f)

    def operands(f, names):
        ps = f.params()
        return [ps[0] if n == 'self' else ps[n] if isinstance(n, int) and n < len(ps) else n for n in names]

    for c, name, names in TABLE + expansions(p):
        k = p.classes.get(c)
        f = k.methods.get(name) if k is not None else None
        if f is None or not isinstance(f.node, ast.FunctionDef):
            continue
        stats['operations_judged'] += 1
        scaled = set(operands(f, [len(f.params()) - 1 if n == 'other' else n for n in names]))
        ps = f.params()
        first = ps[0]
        own = ('cls', k) if f.kind in ('classmethod', 'decorated') else ONE if first in scaled else PLAIN

        def run(d, f=f, ps=ps, scaled=scaled, own=own):
            # what is left out takes its default
            n = max([ps.index(x) for x in scaled if x in ps] + [len(ps) - 1 - len(f.defaults())])
            return d.call_func(('fn', f, None, own), [ONE if x in scaled else PLAIN for x in ps[1:n + 1]], {})
        one('%s.%s' % (c, name), f, run, ' and '.join(sorted(scaled)))
    m = p.modules.get('operators')
    for name in OPERATORS:
        f = p.funcs.get('operators.' + name)
        if f is None:
            continue
        stats['operations_judged'] += 1

        def run(d, f=f):
            op = d.call_func(('fn', f, None, None), [PLAIN] * (len(f.params()) - len(f.defaults())), {})
            return d.call_func(op, [ONE], {}) if op is not TOP and op[0] == 'fn' else TOP
        one('operators.' + name, f, run, 'the vector it is applied to')
    tab = p.need_class('Tableau')
    counting = [('Tableau', n, n) for n in sorted(tab.methods) if n.startswith('_count_')]
    for c, name, source in RECURSIVE + SUMS + counting:
        k = p.classes.get(c)
        f = k.find(name) if k is not None else None
        g = next((x.find(source) for x in ([k] if k is not None else []) + [p.classes.get('Word')] if x is not None and x.find(source) is not None), None)
        if f is None or g is None:
            continue
        stats['operations_judged'] += 1
        stats['runs'] += 1
        d = Degree(p, eng, {g: ONE})
        d.loop_base = True
        env = Env({x: PLAIN for x in f.all_params()})
        env[f.params()[0]] = ('cls', k) if f.kind in ('classmethod', 'decorated') else PLAIN
        d.run(f, env)
        seen_runs.append((d, '%s.%s' % (c, name)))
        last = {}
        for h, n, ds, inside in d.contrib:
            if inside or name == source or (c, name, source) in SUMS:
                last[id(n)] = (h, n, ds, inside)
        seen = 0
        for h, n, ds, inside in last.values():
            if ds is None or not inside and not ds - {0}:
                if (c, name, source) not in SUMS or ds is None:
                    continue
            seen += 1
            if ds - {1}:
                report(h, n, '%s.%s adds up the answers of %s, but they enter this contribution %s' % (
                    c, name, source, ' or '.join({0: 'not at all'}.get(b, '%d times' % b) for b in sorted(ds - {1}))), '%s.%s: contribution' % (c, name))
        stats['contributions'] += len(last)
        if not seen:
            stats['undecided'].append('%s.%s' % (c, name))
    for d, label in seen_runs:
        for f, n, text in lost(d):
            stats_key = '%s: %s' % (label, text.split(':')[0])
            report(f, n, '%s takes every term: %s' % (label, text), stats_key)
    stats['functions_followed'] = len(followed)
    meta = {'explanation': 'For each operation that is linear, one operand is taken to be multiplied by an unknown factor and the power of it that every value carries '
                           'is computed through branches, loops, comprehensions and calls: each contribution to the answer must carry it once.',
            'assumptions': ['the operations that are linear, and in what: TABLE, OPERATORS, RECURSIVE and SUMS in sa/checks/c15.py']}
    return list(out.values()), stats, meta


def names(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


LOSSY = {'sorted', 'sort', 'trim', 'abs', 'len', 'sum', 'min', 'max', 'set', 'frozenset', 'is_partition', 'degree', 'total_degree', 'strip', 'bool'}


def one_to_one(key, targets):
    """False when different terms are certain to be able to share the key"""
    if isinstance(key, ast.Name):
        return True
    for n in ast.walk(key):
        if isinstance(n, ast.Call):
            c = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', None)
            if c in LOSSY and names(n) & targets:
                return False
        if isinstance(n, ast.Subscript) and names(n.value) & targets and not (isinstance(n.slice, ast.Slice) and n.slice.step is not None):
            return False
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.FloorDiv, ast.Mod)) and names(n) & targets:
            return False
    return True


def behind(f, ns):
    """variables, and those their values are made from"""
    ns = set(ns)
    while True:
        more = set()
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Assign, ast.AugAssign)) and n.value is not None:
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} & ns:
                        more |= kept(n.value)
        if more <= ns:
            return ns
        ns |= more


def kept(e):
    """the variables in an expression, but for those of which only a size or the like is used"""
    if isinstance(e, ast.Name):
        return {e.id}
    if isinstance(e, ast.Call) and (e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, 'id', None)) in LOSSY - {'sorted', 'sort', 'trim', 'set', 'frozenset', 'strip'}:
        return set()
    return set().union(*[kept(c) for c in ast.iter_child_nodes(e)])


def walk_body(s):
    """the statements of a loop, not those of functions defined in it"""
    todo = list(s.body)
    while todo:
        x = todo.pop(0)
        yield x
        for c in ast.iter_child_nodes(x):
            if isinstance(c, ast.stmt) and not isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                todo.append(c)
            elif isinstance(c, ast.ExceptHandler) or type(c).__name__ == 'match_case':
                todo.extend(c.body)


def leaves_early(body, inner=False):
    """the break and return statements that end the loop a body belongs to"""
    for s in body:
        if isinstance(s, ast.Return) or isinstance(s, ast.Break) and not inner:
            yield s
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
        else:
            loop = isinstance(s, (ast.For, ast.While))
            for field in ('body', 'orelse', 'finalbody'):
                yield from leaves_early(getattr(s, field, []) or [], inner or loop and field == 'body')
            for h in getattr(s, 'handlers', []):
                yield from leaves_early(h.body, inner)


def lost(d):
    """the places where terms are left out or overwritten"""
    notes = {}
    for f, n, ds, inside in d.contrib:
        notes[id(n)] = (f, n, ds, inside)
    for f, loop in d.loops.values():
        body = list(walk_body(loop))
        ids = {id(s) for s in body}
        adds = [s for s in body if isinstance(s, (ast.Assign, ast.AugAssign)) and id(s) in notes and notes[id(s)][2] and notes[id(s)][2] - {0}]
        if adds:
            for s in leaves_early(loop.body):
                yield f, s, 'this leaves the loop over the terms, and the terms still to come are left out'
        # a variable that starts before the loop and is read after it is overwritten, not added to
        for x in body:
            if id(x) in d.assigned and isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                v = x.targets[0].id
                if v in names(x.value):
                    continue
                whole = list(walk_own(f.node))
                first = [s for s in whole if isinstance(s, ast.Assign) and s not in body and any(isinstance(t, ast.Name) and t.id == v for t in s.targets) and s.lineno < loop.lineno]
                later = [n for n in whole if isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Load) and n.lineno > (loop.end_lineno or 0)]
                within = [n for s in loop.body for n in ast.walk(s) if isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Load)]
                if first and later and not within:
                    yield f, x, 'this overwrites %s in each round, and only the last term is left' % v
        for s in adds:
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Subscript) and isinstance(s.targets[0].value, ast.Name):
                acc, key = s.targets[0].value.id, s.targets[0].slice
                if acc in names(s.value):
                    continue
                if guarded(f, s, acc):
                    continue
                around = [l for l in ast.walk(f.node) if isinstance(l, ast.For) and any(y is s for y in ast.walk(l))]
                start = [a.lineno for a in ast.walk(f.node) if isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id == acc for t in a.targets) and a.lineno < s.lineno]
                around = [l for l in around if not start or l.lineno > max(start)]
                terms = [l for l in around if id(l) in d.loops]
                targets = set().union(*[names(l.target) for l in around]) if around else set()
                deep = behind(f, names(key))
                free = [l for l in around if not deep & names(l.target)] if terms else []
                if free or not one_to_one(key, targets):
                    yield f, s, 'terms with the same key overwrite each other here, instead of being added up'
        for n in d.ordered.values():
            t = n[1]
            for s in body:
                if isinstance(s, ast.If) and any(x is t for x in ast.walk(s.test)):
                    inside = {id(y) for y in ast.walk(s)} & {id(a) for a in adds}
                    skip = len(s.body) == 1 and isinstance(s.body[0], ast.Continue)
                    if skip or inside and not s.orelse:
                        yield f, s, 'whether a term counts depends on the sign or the size of its coefficient'
    for f, n, ds, inside in notes.values():
        if isinstance(n, ast.expr) and ds and ds - {0}:
            c = next((c for c in ast.walk(f.node) if isinstance(c, ast.DictComp) and c.value is n), None)
            if c is None:
                continue
            targets = set().union(*[names(g.target) for g in c.generators])
            if not one_to_one(c.key, targets) or any(not names(c.key) & names(g.target) for g in c.generators):
                yield f, n, 'terms with the same key overwrite each other here, instead of being added up'
            for g in c.generators:
                for t in g.ifs:
                    if any(id(x) in d.ordered for x in ast.walk(t)):
                        yield f, n, 'whether a term counts depends on the sign or the size of its coefficient'


def guarded(f, s, acc):
    """whether a statement is in a branch of a test whether the key is there already"""
    for n in ast.walk(f.node):
        if isinstance(n, ast.If) and any(x is s for x in ast.walk(n)):
            for t in ast.walk(n.test):
                if isinstance(t, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in t.ops) and any(acc in names(c) for c in t.comparators):
                    return True
    return False


def expansions(p):
    sym = p.need_class('SymmetricPolynomial')
    return [('SymmetricPolynomial', n, [1]) for n in sorted(sym.methods) if n.endswith('_expansion') and not n.startswith('_')]
