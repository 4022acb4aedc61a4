"""C14: no reachable construct fails for every input."""
import ast

from ..program import walk_own
from ..rules import events, finding

ALWAYS = ('undefined-name', 'arity', 'readonly')
NEVER_EVALUATED = ('no-attribute', 'not-callable', 'no-operator', 'bad-operands')
TEXT = {'undefined-name': 'no such name', 'arity': 'call does not match the parameters', 'readonly': 'property without a setter',
        'no-attribute': 'no such attribute', 'not-callable': 'not callable', 'no-operator': 'operator not defined',
        'bad-operands': 'operand types never fit'}


def guarded(f, node):
    """the construct is expected to fail: inside try"""
    for n in walk_own(f.node):
        if isinstance(n, ast.Try) and n.handlers:
            if any(x is node for s in n.body for x in ast.walk(s)):
                return True
    return False


def check(world):
    p, e = world.program, world.eng
    out = []
    attr_by_node = {}
    for k, (c, node) in e.events.items():
        if k[0] == 'no-attribute':
            attr_by_node.setdefault(node, []).append(k)
    for kind, qual, node, detail, ctx in events(e, *(ALWAYS + NEVER_EVALUATED)):
        f = p.funcs.get(qual)
        if f is None and not qual.endswith('<module>'):
            continue
        if kind in NEVER_EVALUATED:
            if not isinstance(node, ast.expr) or node in e.evaluated:
                continue
            if not (isinstance(getattr(node, 'ctx', ast.Load()), ast.Load)):
                continue
        if f is not None and guarded(f, node):
            continue
        d = ' '.join(map(str, detail))
        out.append(finding(p, kind, qual, node, '%s: %s' % (TEXT[kind], d), d, e.chain(ctx)))
    cov = dict(world.engine_stats())
    cov.update({'expressions_evaluated': len(e.evaluated)})
    meta = {
        'explanation': 'Whole-program name, arity and type resolution by abstract interpretation: every name read exists, every '
                       'resolved call fits the parameters of its target, no read-only property is assigned, and no attribute '
                       'access or operator fails for all the operands that can reach it.',
        'assumptions': ['callers pass values of the documented types (sa/contracts.py)'],
    }
    return out, cov, meta
