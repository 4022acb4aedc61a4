"""C18: only the operations meant to say "there is none" may end without an answer."""
import ast

from .. import contracts
from ..core import Finding
from ..facts import assume
from ..flow import FUNCS
from ..paths import Paths
from ..program import walk_own
from .c06 import callee, is_bound, parents
from .c33 import is_none, may_be_none, tested

# the operations that may answer None, and when
PARTIAL = {
    'TableauCrystalGenerator.f_crystal_operator': 'the operator does not apply', 'ShiftedCrystalGenerator.f_crystal_operator': 'the operator does not apply',
    'WordCrystalGenerator.f_crystal_operator': 'the operator does not apply', 'CrystalMixin.f_crystal_operator': 'the operator does not apply',
    'Tableau.e_crystal_operator': 'the operator does not apply', 'Tableau.f_crystal_operator': 'the operator does not apply',
    'Word.e_crystal_operator': 'the operator does not apply', 'Word.f_crystal_operator': 'the operator does not apply',
    'Tableau.from_crystal_reading_word': 'the word is None', 'Tableau.get': 'no such box and no default', 'InsertionState.get': 'no such box and no default',
    'Tableau.last_box_in_row': 'empty row', 'Tableau.last_box_in_column': 'empty column',
    'InsertionState.has_outer_box_in_last_row': 'no outer box', 'InsertionState.has_outer_box_in_last_column': 'no outer box',
    'Partition.find_shifted_outer_corner': 'no such corner', 'Partition.find_shifted_inner_corner': 'no such corner',
    'Partition.remove_shifted_inner_corner': 'no such corner', 'Partition.printable': 'no partition',
    'Permutation.from_involution_word': 'not an involution word', 'Permutation.from_fpf_involution_word': 'not an involution word',
    'Permutation.last_descent': 'no descent', 'Polynomial.__pow__': 'no such power', 'Polynomial.total_degree': 'zero has no degree',
    'ValuedSetTableau.hinge': 'no hinge',
}
# operations whose last case needs no test, for reasons that lie outside their code
EXHAUSTIVE = {
    'FState.next': 'one of the transitions applies to every state with an outer box',
    'Tableau.KOG_counts': 'a terminal part has one, two or three boxes', 'Tableau.KLG_counts': 'a terminal part has one, two or three boxes',
    'ValuedSetTableau.is_group_start': 'no entry is zero',
}


class Ends(Paths):
    """the paths on which a function ends without an answer"""

    def __init__(self, f):
        self.none = []
        super().__init__(f)

    def returns(self, s, st):
        self.value(s.value, st[0], s)

    def ending(self, states):
        self.none += [self.f.node] * bool(states)

    def value(self, e, fa, node):
        if e is None or is_none(e):
            self.none.append(node)
        elif isinstance(e, ast.IfExp):
            for x, v in ((e.body, True), (e.orelse, False)):
                a = assume(fa, e.test, v)
                if a is not None:
                    self.value(x, a, node)


def is_generator(f):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(f.node))


def short(f):
    return f.qual.split('.', 1)[1] if f.cls else f.qual


def check(world):
    p = world.program
    ends, handed = {}, {}
    answering = paths = 0
    for f in p.funcs.values():
        if not isinstance(f.node, FUNCS) or is_generator(f):
            continue
        if any(isinstance(n, ast.Return) and n.value is not None and not is_none(n.value) for n in walk_own(f.node)):
            answering += 1
            e = Ends(f)
            paths += e.steps
            for n in e.none:
                ends.setdefault(f.qual, {}).setdefault('end' if isinstance(n, FUNCS) else 'return', n)
    grew = True
    while grew:
        grew = False
        for f in p.funcs.values():
            if not isinstance(f.node, FUNCS) or is_generator(f):
                continue
            for n, kinds in hands_on(world, f, ends, handed):
                have = ends.setdefault(f.qual, {})
                for k in kinds:
                    if k not in have:
                        have[k] = n
                        handed.setdefault(f.qual, n)
                        grew = True
    api = contracts.api_names()
    out, public = [], 0
    for f in p.funcs.values():
        if not isinstance(f.node, FUNCS) or f.parent is not None or not public_name(f, api):
            continue
        public += 1
        if short(f) in PARTIAL:
            continue
        for k, n in sorted(ends.get(f.qual, {}).items()):
            if k == 'end' and short(f) in EXHAUSTIVE:
                continue
            at_end = isinstance(n, FUNCS)
            how = 'the end of its body can be reached' if at_end else 'it returns nothing here' if n.value is None or is_none(n.value) or isinstance(n.value, ast.IfExp) else 'it hands on an answer that may be None'
            out.append(Finding('no-answer', f, n.body[-1] if at_end else n, '%s gives answers, but for some inputs it gives none: %s' % (f.name, how), short(f)))
    cov = {'functions_with_answers': answering, 'paths_followed': paths, 'public_operations': public, 'operations_that_may_answer_none': len(PARTIAL),
           'functions_that_may_end_without_an_answer': len([q for q in ends if ends[q]])}
    meta = {
        'explanation': 'Every path through every function with answers is followed with the facts its tests establish (contradictory '
                       'combinations left out); a public operation that reaches the end of its body, a bare return or return None, or hands on such an '
                       'end of an operation it calls, must be in the table of operations that may answer None.',
        'assumptions': ['%s: %s' % x for x in sorted(EXHAUSTIVE.items())],
    }
    return out, cov, meta


def public_name(f, api):
    return short(f) in api or f.qual in api or f.name.startswith('__') and f.name.endswith('__')


def hands_on(world, f, ends, handed):
    """(return statement, kinds of ends) for every answer of a partial operation that is returned unseen"""
    up = parents(f)
    flow = world.flow(f)

    def partial(c):
        t = callee(world, f, c)
        if t is None or t.name == '__init__':
            return ()
        kinds = set(ends.get(t.qual, ()))
        if 'return' in kinds and t.qual not in handed and may_be_none(world, t, c, is_bound(t, c)) is None and not isinstance(ends[t.qual]['return'].value, ast.IfExp):
            kinds.discard('return')
        return kinds
    out = []
    for n in walk_own(f.node):
        if not isinstance(n, ast.Return) or n.value is None:
            continue
        for v in arms(n.value):
            if isinstance(v, ast.Call):
                kinds = partial(v)
                if kinds:
                    out.append((n, kinds))
            elif isinstance(v, ast.Name) and v in flow.uses and not tested(f, v, v.id, up):
                for d in flow.uses[v]:
                    c = getattr(d.node, 'value', None)
                    if isinstance(d.node, ast.Assign) and isinstance(c, ast.Call) and len(d.node.targets) == 1 and isinstance(d.node.targets[0], ast.Name):
                        kinds = partial(c)
                        if kinds:
                            out.append((n, kinds))
    return out


def arms(e):
    return arms(e.body) + arms(e.orelse) if isinstance(e, ast.IfExp) else [e]
