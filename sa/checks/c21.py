"""C21: arithmetic means what its signs say, in either order."""
import ast

from ..core import Finding
from ..forms import O, S, Forms, form, simplify, text
from ..powers import Powers, settle

CLASSES = ('Polynomial', 'Vector', 'SymmetricMonomial', 'SymmetricPolynomial', 'BoxOperator')
ORDERED = ('BoxOperator',)      # classes whose multiplication depends on the order
WANT = {
    '__add__': form(S, O), '__radd__': form(S, O), '__sub__': form(S, (('O',), -1)), '__rsub__': form(O, (('S',), -1)),
    '__neg__': form((('S',), -1)), '__mul__': form((('S', 'O'), 1)), '__rmul__': form((('O', 'S'), 1)),
}
RAISED = ('Polynomial', 'Vector', 'SymmetricMonomial', 'Permutation')      # classes with powers
OTHER = {'__add__': '__radd__', '__sub__': '__rsub__', '__mul__': '__rmul__'}


BIN = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul'}


def shown(e, facts):
    words = {'n': 'n', 'h': 'n // 2', '': ''}
    parts = ['%s%s' % ('' if c == 1 and x else '%d*' % c if x else str(c), words[x]) for x, c in sorted(e.items(), reverse=True)]
    return (' + '.join(parts) or '0') + {0: ' (n even)', 1: ' (n odd)'}.get(facts.get('parity'), '')


def hands_on(f):
    """the methods of its own class, with the same operands, every answer of a method comes from"""
    ps = f.params()
    stored = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    ops = [x for x in ps if x not in stored]
    sets = []
    for r in ast.walk(f.node):
        if not isinstance(r, ast.Return) or r.value is None:
            continue
        found = set()
        stack = [r.value]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.IfExp, ast.BoolOp, ast.Lambda, ast.ListComp, ast.DictComp, ast.GeneratorExp, ast.SetComp)):
                continue
            stack.extend(ast.iter_child_nodes(n))
            mine = lambda e: isinstance(e, ast.Name) and e.id == ps[0] and e.id in ops
            plain = lambda e: isinstance(e, ast.Constant) or isinstance(e, ast.Name) and e.id in ops and e.id != ps[0]
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and mine(n.operand):
                found.add('__neg__')
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN and mine(n.left) and plain(n.right):
                found.add('__%s__' % BIN[type(n.op)])
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN and plain(n.left) and mine(n.right):
                found.add('__r%s__' % BIN[type(n.op)])
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and mine(n.func.value) and len(n.args) <= 1 and all(plain(a) for a in n.args):
                found.add(n.func.attr)
        sets.append(found)
    return set.intersection(*sets) if sets else set()


def endless(c, out):
    goes = {}
    for op in WANT:
        f = c.find(op)
        if f is not None and isinstance(f.node, ast.FunctionDef):
            goes[op] = hands_on(f)
    for op in goes:
        seen, todo = set(), list(goes[op])
        while todo:
            x = todo.pop()
            if x in goes and x not in seen:
                seen.add(x)
                todo.extend(goes[x])
        if op in seen:
            f = c.find(op)
            out.append(Finding('endless', f, f.node, '%s.%s always hands its operands on until it is asked again itself: it never answers' % (c.name, op), '%s %s' % (c.name, op)))


def check(world):
    p = world.program
    out, stats = [], {'methods_judged': 0, 'answers_judged': 0, 'answers_undecided': 0, 'classes': 0}
    for name in CLASSES:
        c = p.need_class(name)
        stats['classes'] += 1
        defined = {m for k in c.mro() for m in list(k.methods) + list(k.attrs)}
        for op, refl in OTHER.items():
            if op in defined and refl not in defined:
                out.append(Finding('reflected', c.find(op) or c.methods.get('__init__'), (c.find(op) or c.methods['__init__']).node,
                                   '%s has %s but no %s: the operation fails when the other operand comes first' % (name, op, refl), '%s %s' % (name, refl)))
        endless(c, out)
        for op, want in WANT.items():
            f = c.methods.get(op)
            if f is None or not isinstance(f.node, ast.FunctionDef):
                # an alias: __radd__ = __add__
                a = c.attrs.get(op)
                if isinstance(a, ast.Name) and a.id in WANT and simplify(WANT[a.id], {}, name not in ORDERED) != simplify(want, {}, name not in ORDERED):
                    g = c.methods.get(a.id) or next(iter(c.methods.values()))
                    out.append(Finding('sign', g, a, '%s.%s is %s, which is not what it should be' % (name, op, a.id), '%s.%s alias' % (name, op)))
                continue
            stats['methods_judged'] += 1
            r = Forms(p, f, name)
            for node, v, facts in r.answers:
                if v is None:
                    stats['answers_undecided'] += 1
                    continue
                stats['answers_judged'] += 1
                commuting = name not in ORDERED
                got, need = simplify(v, facts, commuting), simplify(want, facts, commuting)
                if got != need:
                    out.append(Finding('sign', f, node, '%s.%s answers %s, where it should answer %s' % (name, op, text(got), text(need)), '%s.%s %s' % (name, op, text(got))))
            for node in r.dropped:
                out.append(Finding('terms', f, node, '%s.%s leaves out entries by their sign' % (name, op), '%s.%s dropped' % (name, op)))
            for node in r.uneven:
                out.append(Finding('sign', f, node, '%s.%s puts the products of some terms in with another sign or multiplicity than those of others' % (name, op), '%s.%s uneven' % (name, op)))
            for node, k in r.exponents:
                if op in ('__mul__', '__rmul__') and simplify(k, {}, True) != form(S, O):
                    out.append(Finding('exponents', f, node, '%s.%s puts the product of two terms at the exponents %s, where it should be self + other' % (name, op, text(k)), '%s.%s exponents' % (name, op)))
            for node in r.bare:
                out.append(Finding('number', f, node, '%s.%s adds the other operand as it is, which fails where it is a number other than 0' % (name, op), '%s.%s number' % (name, op)))
            for node, x in r.missing:
                out.append(Finding('terms', f, node, '%s.%s leaves out the terms that only %s has' % (name, op, {'S': 'self', 'O': 'other'}[x]), '%s.%s terms' % (name, op)))
    for name in RAISED:
        f = p.need_class(name).methods.get('__pow__')
        if f is None:
            continue
        stats['methods_judged'] += 1
        for node, e, facts in Powers(f).answers:
            if e is None:
                stats['answers_undecided'] += 1
                continue
            stats['answers_judged'] += 1
            got, need = settle(e, facts), settle({'n': 1}, facts)
            if got != need:
                out.append(Finding('power', f, node, '%s.__pow__ answers the power %s of the receiver here, where it was asked for %s' % (name, shown(got, facts), shown(need, facts)),
                                   '%s power %s' % (name, shown(got, facts))))
    uniq = {}
    for x in out:
        uniq.setdefault(x.key() if callable(getattr(x, 'key', None)) else x.text(), x)
    meta = {'explanation': 'The answer of each arithmetic method is computed, branch by branch, as a sum of products of its operands with integer coefficients, and '
                           'compared with what the operator stands for; each operator must be there for either order of the operands.',
            'assumptions': ['answers built in nested loops are not judged (see C15 for their coefficients)']}
    return list(uniq.values()), stats, meta
