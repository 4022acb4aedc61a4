"""C20: named functions count the tableaux, use the words and expand in the basis their names say."""
import ast
import re

from ..calltree import Bound, CallTree, entry
from ..core import Finding
from ..program import Cls, Func, walk_own
from ..rules import method_root

KINDS = {
    'semistandard': 'tableaux', 'semistandard_marked': 'marked tableaux', 'semistandard_shifted_marked': 'shifted marked tableaux',
    'semistandard_rpp': 'reverse plane partitions', 'semistandard_marked_rpp': 'marked reverse plane partitions',
}
ALIAS = {'semistandard_shifted': 'semistandard_shifted_marked', 'semistandard_shifted_rpp': 'semistandard_marked_rpp'}
DIAGONAL = ('diagonal_primes', 'diagonal_nonprimes')
ENDS = {'lowest_degree_terms': 'low', 'highest_degree_terms': 'high'}
CORNERS = {'remove_inner_corners': 'straight', 'remove_shifted_inner_corners': 'shifted'}
WORDS = {
    'hecke_words': {'get_hecke_words', 'hecke_levels', 'get_reduced_words'},
    'involution_hecke_words': {'get_involution_hecke_words', 'involution_hecke_levels', 'get_involution_words'},
    'symplectic_hecke_words': {'get_symplectic_hecke_words', 'symplectic_hecke_levels', 'get_fpf_involution_words'},
}
GROUPS = [
    ('words', {n: k for k, v in WORDS.items() for n in v}),
    ('length', {'length': 'length', 'involution_length': 'involution_length', 'fpf_involution_length': 'fpf_involution_length'}),
    ('zeta', {n: n for n in ('decreasing_zeta', 'increasing_zeta', 'unimodal_zeta', 'weakly_increasing_zeta', 'weakly_decreasing_zeta',
                             'weakly_unimodal_zeta', 'left_weakly_unimodal_zeta', 'right_weakly_unimodal_zeta')}),
]

# basis -> (kind, set-valued, primes (or unprimed numbers) allowed on the diagonal, beta negated)
FUNCTIONS = {
    'schur': ('semistandard', False, None), 'schur_s': ('semistandard_marked', False, None),
    'schur_p': ('semistandard_shifted_marked', False, False), 'schur_q': ('semistandard_shifted_marked', False, True),
    'stable_grothendieck': ('semistandard', True, None), 'stable_grothendieck_s': ('semistandard_marked', True, None),
    'stable_grothendieck_p': ('semistandard_shifted_marked', True, False), 'stable_grothendieck_q': ('semistandard_shifted_marked', True, True),
    'dual_stable_grothendieck': ('semistandard_rpp', None, None), 'dual_stable_grothendieck_p': ('semistandard_marked_rpp', None, False),
    'dual_stable_grothendieck_q': ('semistandard_marked_rpp', None, True), 'dual_stable_grothendieck_s': ('semistandard_marked_rpp', None, None),
    'transposed_dual_stable_grothendieck': ('semistandard', False, None), 'transposed_dual_stable_grothendieck_p': ('semistandard_shifted_marked', False, False),
    'transposed_dual_stable_grothendieck_q': ('semistandard_shifted_marked', False, True), 'transposed_dual_stable_grothendieck_s': ('semistandard_shifted_marked', False, None),
}
# expansion -> (function, beta negated, which end it starts from; the functions that have no terms above
# the leading one can be taken from either end)
EXPANSIONS = {
    'schur_expansion': ('schur', False, None), 'omega_schur_expansion': ('schur', False, None),
    'grothendieck_expansion': ('stable_grothendieck', False, 'low'), 'mn_grothendieck_expansion': ('stable_grothendieck', True, 'low'),
    'dual_grothendieck_expansion': ('dual_stable_grothendieck', False, None), 'mp_dual_grothendieck_expansion': ('dual_stable_grothendieck', True, None),
    'j_expansion': ('transposed_dual_stable_grothendieck', False, None), 'jp_expansion': ('transposed_dual_stable_grothendieck_p', False, None),
    'jq_expansion': ('transposed_dual_stable_grothendieck_q', False, None), 'js_expansion': ('transposed_dual_stable_grothendieck_s', False, None),
    'gp_expansion': ('dual_stable_grothendieck_p', False, None), 'gq_expansion': ('dual_stable_grothendieck_q', False, None),
    'gs_expansion': ('dual_stable_grothendieck_s', False, None), 'gp_free_expansion': ('dual_stable_grothendieck_p', False, None),
    'mp_gp_expansion': ('dual_stable_grothendieck_p', True, None), 'mp_gq_expansion': ('dual_stable_grothendieck_q', True, None),
    'GP_expansion': ('stable_grothendieck_p', False, 'low'), 'GQ_expansion': ('stable_grothendieck_q', False, 'low'), 'GS_expansion': ('stable_grothendieck_s', False, 'low'),
    'mn_GP_expansion': ('stable_grothendieck_p', True, 'low'), 'mn_GQ_expansion': ('stable_grothendieck_q', True, 'low'),
    'P_expansion': ('schur_p', False, None), 'Q_expansion': ('schur_q', False, None), 'S_expansion': ('schur_s', False, None),
}
PERMUTATION = {
    'stable_grothendieck': ('hecke_words', 'length', 'decreasing_zeta'),
    'signed_involution_stable_grothendieck': ('involution_hecke_words', 'involution_length', 'unimodal_zeta'),
    'symplectic_stable_grothendieck': ('symplectic_hecke_words', 'fpf_involution_length', 'decreasing_zeta'),
    'involution_stable_grothendieck': ('involution_hecke_words', 'involution_length', 'decreasing_zeta'),
    'hecke_words': ('hecke_words', None, None), 'get_hecke_words': ('hecke_words', None, None),
    'involution_hecke_words': ('involution_hecke_words', None, None), 'get_involution_hecke_words': ('involution_hecke_words', None, None),
    'symplectic_hecke_words': ('symplectic_hecke_words', None, None), 'get_symplectic_hecke_words': ('symplectic_hecke_words', None, None),
}
STATES = {
    'hecke': 'HState', 'inverse_hecke': 'HState', 'orthogonal_hecke': 'FState', 'inverse_orthogonal_hecke': 'FState',
    'symplectic_hecke': 'FState', 'inverse_symplectic_hecke': 'FState',
}
UTILS = {
    's': 'schur', 'P': 'schur_p', 'Q': 'schur_q', 'S': 'schur_s',
    'G': 'stable_grothendieck', 'GP': 'stable_grothendieck_p', 'GQ': 'stable_grothendieck_q', 'GS': 'stable_grothendieck_s',
    'grothendieck': 'stable_grothendieck', 'grothendieck_P': 'stable_grothendieck_p', 'grothendieck_Q': 'stable_grothendieck_q', 'grothendieck_S': 'stable_grothendieck_s',
    'mn_G': 'mn_stable_grothendieck', 'mn_GP': 'mn_stable_grothendieck_p', 'mn_GQ': 'mn_stable_grothendieck_q',
    'G_doublebar': 'stable_grothendieck_doublebar', 'GP_doublebar': 'stable_grothendieck_p_doublebar',
    'GQ_doublebar': 'stable_grothendieck_q_doublebar', 'GS_doublebar': 'stable_grothendieck_s_doublebar',
    'g': 'dual_stable_grothendieck', 'gp': 'dual_stable_grothendieck_p', 'gq': 'dual_stable_grothendieck_q', 'gs': 'dual_stable_grothendieck_s',
    'mp_g': 'mp_dual_stable_grothendieck', 'mp_gp': 'mp_dual_stable_grothendieck_p', 'mp_gq': 'mp_dual_stable_grothendieck_q',
    'j': 'slow_transposed_dual_stable_grothendieck', 'jp': 'slow_transposed_dual_stable_grothendieck_p',
    'jq': 'slow_transposed_dual_stable_grothendieck_q', 'js': 'slow_transposed_dual_stable_grothendieck_s',
    'G_expansion': 'grothendieck_expansion', 'g_expansion': 'dual_grothendieck_expansion', 'mp_g_expansion': 'mp_dual_grothendieck_expansion',
    'mn_G_expansion': 'mn_grothendieck_expansion',
}
for _n in EXPANSIONS:
    if _n not in ('grothendieck_expansion', 'dual_grothendieck_expansion', 'mp_dual_grothendieck_expansion', 'mn_grothendieck_expansion'):
        UTILS.setdefault(_n, _n)
UTILS_WORDS = {'G': 'stable_grothendieck', 'grothendieck': 'stable_grothendieck', 'GP': 'symplectic_stable_grothendieck', 'grothendieck_P': 'symplectic_stable_grothendieck',
               'GS': 'signed_involution_stable_grothendieck', 'grothendieck_S': 'signed_involution_stable_grothendieck'}


class Want:
    def __init__(self, kind=None, setvalued=None, diagonal=None, negated=None, end=None, corners=None, words=None, args=True, state=None, function=None):
        self.function = function
        self.kind, self.setvalued, self.diagonal, self.negated, self.end, self.corners, self.words, self.args, self.state = \
            kind, setvalued, diagonal, negated, end, corners, words, args, state


def symmetric_want(name):
    """what the name of an operation of SymmetricPolynomial promises, or None"""
    if name in EXPANSIONS:
        fn, neg, end = EXPANSIONS[name]
        k, sv, d = FUNCTIONS[fn]
        return Want(k, sv, d, neg, end, args=False, function=fn)
    n = re.sub(r'^_?(slow_)?', '', name)
    neg = corners = None
    m = re.match(r'(mn|mp)_(.*)', n)
    if m:
        neg, n = True, m.group(2)
    if n.endswith('_doublebar'):
        n = n[:-len('_doublebar')]
        corners = 'shifted' if n[-2:] in ('_p', '_q') else 'straight'
    if n in FUNCTIONS:
        k, sv, d = FUNCTIONS[n]
        return Want(k, sv, d, bool(neg), None, corners, args=not n.endswith('dual_stable_grothendieck_s'))
    return None


def plain(name):
    return re.sub(r'^(mn_|mp_)', '', re.sub(r'^_?(slow_)?', '', name))


def parse(name):
    """(kind, set-valued by name, counted) of an enumeration of tableaux"""
    n = name.lstrip('_')
    counted = n.startswith('count_')
    n = n[len('count_'):] if counted else n
    sv = n.endswith('_setvalued')
    n = n[:-len('_setvalued')] if sv else n
    n = ALIAS.get(n, n)
    return (n, sv, counted) if n in KINDS else None


def const(v):
    """the set of constants a value can be, or None when it is not known"""
    if v is None or any(not (isinstance(x, tuple) and x[0] == 'c') for x in v):
        return None
    return {x[1] for x in v}


def argument(v):
    """the argument of the operation a value is, or None"""
    if v is not None and len(v) == 1:
        x = next(iter(v))
        if isinstance(x, tuple) and x[0] == 'p':
            return x[1]
    return None


def is_enumeration(f):
    return f.cls is not None and f.parent is None and 'Tableau' in [c.name for c in f.cls.mro()] and parse(f.name) is not None


def stop(f):
    if is_enumeration(f):
        return True
    if f.cls is not None and f.parent is None:
        return f.cls.name in ('Permutation', 'Word') and any(f.name in names for _, names in GROUPS) or state_of(f, None) is not None
    return False


def state_of(f, bound):
    """the insertion state a method belongs to (through the class it is called on, where that is known)"""
    if f.cls is None or f.parent is not None or 'InsertionState' not in [c.name for c in f.cls.mro()]:
        return None
    first = (bound or {}).get((f.params() or [None])[0])
    names = {x.name if isinstance(x, Cls) else x[1].name for x in first or () if isinstance(x, Cls) or isinstance(x, tuple) and x[0] == 'self'}
    return names.pop() if len(names) == 1 else f.cls.name


def check(world):
    p, eng = world.program, world.eng
    out, stats = [], {'operations_judged': 0, 'calls_followed': 0, 'enumerations_reached': 0, 'undecided': 0}

    def judge(op, f, want, owner=None, label=None):
        t = entry(p, eng, f, stop, owner)
        stats['operations_judged'] += 1
        stats['calls_followed'] += len(t.seen)
        label = label or op

        def bad(rec, text, key):
            node = rec[2] if rec is not None and rec[3] is not None and getattr(rec[3], 'module', None) is f.module else None
            out.append(Finding('wiring', f, node if node is not None and rec[3] is f else f.node, text, '%s %s' % (label, key)))

        if want.kind is not None:
            leaves = [r for r in t.seen if is_enumeration(r[0])]
            stats['enumerations_reached'] += len(leaves)
            if not leaves:
                stats['undecided'] += 1
            for r in leaves:
                kind, sv, _ = parse(r[0].name)
                if kind != want.kind:
                    bad(r, '%s stands for sums over %s, but it goes through %s (%s)' % (label, KINDS[want.kind], KINDS[kind], r[0].name), 'kind')
                    continue
                svs = {True} if sv else const(r[1].get('setvalued')) if 'setvalued' in r[0].all_params() else {False}
                if want.setvalued is not None and svs is not None and svs != {want.setvalued}:
                    bad(r, '%s stands for %s, but %s is called for %s' % (label, 'set-valued tableaux' if want.setvalued else 'tableaux with one number in each box', r[0].name,
                                                                         'both' if len(svs) > 1 else 'the other'), 'setvalued')
                for d in DIAGONAL:
                    ds = const(r[1].get(d)) if d in r[0].all_params() else None
                    if want.diagonal is not None and ds is not None and ds != {want.diagonal}:
                        bad(r, '%s stands for tableaux that may%s have %s on the diagonal, but %s is called with %s=%s' % (
                            label, '' if want.diagonal else ' not', 'primes' if d == 'diagonal_primes' else 'unprimed numbers', r[0].name, d, '/'.join(sorted(map(str, ds)))), 'diagonal')
                if want.args:
                    mine = [n for n in f.all_params()[(1 if f.cls is not None else 0):]]
                    theirs = r[0].params()[1:]
                    for i in range(min(3, len(mine), len(theirs))):
                        a = argument(r[1].get(theirs[i]))
                        if a is not None and a != mine[i] and not (want.corners and i == 2):
                            bad(r, '%s hands its argument %s to %s where its argument %s belongs' % (label, a, r[0].name, mine[i]), 'argument %s' % mine[i])
                        elif a is None and const(r[1].get(theirs[i])) and not (want.corners and i == 2):
                            bad(r, '%s takes %s but does not hand it to %s, which gets %s' % (
                                label, mine[i], r[0].name, '/'.join(sorted(map(str, const(r[1].get(theirs[i])))))), 'argument %s' % mine[i])
        if want.function is not None:
            named = {plain(r[0].name): r for r in t.seen if r[0].cls is not None and r[0].parent is None and r[0].cls.name == 'SymmetricPolynomial'}
            named = {n: r for n, r in named.items() if n in FUNCTIONS}
            if named and want.function not in named:
                n = sorted(named)[0]
                bad(named[n], '%s expands in %s, not in %s' % (label, n, want.function), 'function')
        if want.negated is not None:
            neg = [r for r in t.seen if r[0].name == 'negate_beta']
            sub = [r for r in t.seen if r[0].name == 'substitute']
            if want.negated and not neg and not sub:
                bad(None, '%s stands for the function with beta negated, but nothing in it negates beta' % label, 'beta')
            if not want.negated and neg:
                bad(neg[0], '%s negates beta, which its name does not say' % label, 'beta')
        if want.end is not None:
            for r in t.seen:
                e = ENDS.get(r[0].name)
                if e is not None and e != want.end:
                    bad(r, '%s must start from the terms of lowest degree, where the functions it expands in have the one term that names the shape, but it takes %s' % (
                        label, r[0].name), 'end')
        if want.corners is not None:
            for r in t.seen:
                e = CORNERS.get(r[0].name)
                if e is not None and e != want.corners:
                    bad(r, '%s runs over the shapes left when inner corners of a %s shape are removed, but it calls %s' % (label, want.corners, r[0].name), 'corners')
        if want.words is not None:
            words_of(t, want.words, label, bad)
        if want.state is not None:
            met = 0
            for r in t.seen:
                c = state_of(r[0], r[1])
                met += c == want.state
                if c is not None and c not in (want.state, 'InsertionState'):
                    bad(r, '%s inserts by %s, but it goes through %s' % (label, want.state, c), 'state')
            if not met:
                stats['undecided'] += 1

    def words_of(t, words, label, bad):
        for (what, names), right in zip(GROUPS, words):
            for r in t.seen if right is not None else ():
                if r[0].cls is not None and r[0].cls.name in ('Permutation', 'Word') and r[0].name in names and names[r[0].name] != right:
                    bad(r, '%s is a sum over %s, but it uses %s' % (label, ' / '.join(x for x in words if x), r[0].name), what)

    sym, perm, tab, ins = p.need_class('SymmetricPolynomial'), p.need_class('Permutation'), p.need_class('Tableau'), p.need_class('InsertionAlgorithm')
    states = [c for c in p.classes.values() if c.name != 'InsertionState' and 'InsertionState' in [x.name for x in c.mro()]]
    for f in p.funcs.values():
        own = method_root(f).cls
        if own not in states:
            continue
        for n in walk_own(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                stats['names_in_state_methods'] = stats.get('names_in_state_methods', 0) + 1
                c = p.resolve_name(f.module, n.id)
                if isinstance(c, Cls) and c in states and c not in own.mro() and own not in c.mro():
                    out.append(Finding('state', f, n, 'a state of %s goes on by the rule of %s' % (own.name, c.name), '%s %s' % (own.name, c.name)))
    for name, f in sorted(sym.methods.items()):
        w = symmetric_want(name)
        if w is not None:
            judge('SymmetricPolynomial.' + name, f, w)
    for name, words in sorted(PERMUTATION.items()):
        f = perm.find(name)
        if f is not None:
            judge('Permutation.' + name, f, Want(words=words))
    for name, state in sorted(STATES.items()):
        f = ins.find(name)
        if f is not None:
            judge('InsertionAlgorithm.' + name, f, Want(state=state))
    mod = p.modules.get('utils')
    if mod is not None:
        helper = CallTree(p, eng, stop)
        for name, target in sorted(UTILS.items()):
            for x in helper.thing(mod, name) or ():
                f, owner = (x.func, x.owner) if isinstance(x, Bound) else (x, None)
                if not isinstance(f, Func):
                    continue
                w = symmetric_want(target)
                w.words = PERMUTATION.get(UTILS_WORDS.get(name))
                judge('utils.' + name, f, w, owner if owner is not None and not isinstance(owner, tuple) else None)
    for name, f in sorted(tab.methods.items()):
        if parse(name) is None or name.startswith('_'):
            continue
        kind, sv, counted = parse(name)
        t = entry(p, eng, f, is_enumeration)
        stats['operations_judged'] += 1
        for r in t.seen:
            if not is_enumeration(r[0]):
                continue
            stats['enumerations_reached'] += 1
            k2, sv2, c2 = parse(r[0].name)
            label = 'Tableau.' + name
            if k2 != kind:
                out.append(Finding('wiring', f, r[2] if r[3] is f else f.node, '%s enumerates %s, but it goes through %s (%s)' % (label, KINDS[kind], KINDS[k2], r[0].name), label + ' kind'))
            v = r[1].get('setvalued')
            svs = {True} if sv2 else const(v) if 'setvalued' in r[0].all_params() else {False}
            if svs is not None and (svs != {True} if sv else 'setvalued' in f.all_params()) or (sv and argument(v)):
                out.append(Finding('wiring', f, r[2] if r[3] is f else f.node, '%s calls %s with setvalued=%s' % (label, r[0].name, '/'.join(sorted(map(str, svs or ['?'])))), label + ' setvalued'))
            for i, n in enumerate(r[0].params()[1:4]):
                a, mine = argument(r[1].get(n)), f.params()[1:4]
                if a is not None and i < len(mine) and a != mine[i]:
                    out.append(Finding('wiring', f, r[2] if r[3] is f else f.node, '%s hands its argument %s to %s where its argument %s belongs' % (label, a, r[0].name, mine[i]), label + ' argument ' + mine[i]))
            for d in DIAGONAL:
                if d in f.all_params() and d in r[0].all_params() and argument(r[1].get(d)) != d and r[1].get(d) is not None:
                    out.append(Finding('wiring', f, r[2] if r[3] is f else f.node, '%s does not hand on %s to %s' % (label, d, r[0].name), label + ' ' + d))
    # counting and listing go over the same strips
    def strips(f):
        return {r[0].name for r in entry(p, eng, f, lambda g: True).seen if 'strips' in r[0].name}

    for name, f in sorted(tab.methods.items()):
        if name.startswith('_count_') and parse(name) is not None:
            g = tab.find('_' + name[len('_count_'):])
            a, b = strips(f), strips(g) if g is not None else set()
            stats['operations_judged'] += 1
            if a and b and a != b:
                out.append(Finding('wiring', f, f.node, '%s counts by %s, but %s lists by %s' % (name, ', '.join(sorted(a)), g.name, ', '.join(sorted(b))), 'Tableau.%s strips' % name))
    uniq = {}
    for x in out:
        uniq.setdefault((x.key() if callable(getattr(x, 'key', None)) else x.detail if hasattr(x, 'detail') else x.text()), x)
    meta = {
        'explanation': 'The calls each named function, expansion and shorthand leads to are followed with the constants, arguments and functions handed along; '
                       'the enumerations of tableaux, word families, insertion states and ends of the degree range they reach must be those of the table of names.',
        'assumptions': ['the names and what they stand for: FUNCTIONS, EXPANSIONS, PERMUTATION, STATES and UTILS in sa/checks/c20.py'],
    }
    return list(uniq.values()), stats, meta
