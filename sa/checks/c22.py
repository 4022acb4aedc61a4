"""C22: Grothendieck functions are homogeneous in beta and the variables, with the right signs."""
import re

from ..core import Finding
from ..grade import D, Grade, describe, kind, mod2, plus

MU, NU = ('sum', 'mu'), ('sum', 'nu')
UP = {D: 1, MU: -1, NU: 1}
DOWN = {D: -1, MU: 1, NU: -1}
FAMILY = re.compile(r'^_?(slow_)?(refined_)?(?P<sign>mn_|mp_)?(?P<kind>schur|transposed_dual_stable_grothendieck|dual_stable_grothendieck|stable_grothendieck)(_[spq])?(_doublebar)?$')
WORDS = ('stable_grothendieck', 'signed_involution_stable_grothendieck', 'symplectic_stable_grothendieck', 'involution_stable_grothendieck')


def wanted(name):
    """(sign, power of beta) the terms of a named function have, or None"""
    m = FAMILY.match(name)
    if m is None:
        return None
    k = m.group('kind')
    if k == 'schur':
        return {}, {}
    q = UP if k == 'stable_grothendieck' else DOWN
    p = q if k == 'dual_stable_grothendieck' else {}
    if m.group('sign'):
        p = plus(p, q)
    return mod2(p), q


def check(world):
    p = world.program
    out, stats = [], {'functions_judged': 0, 'answers_judged': 0, 'answers_undecided': 0, 'functions_followed': 0}
    followed, undecided = set(), []

    def judge(f, env, want, free_length=False):
        g = Grade(p)
        got = g.run(f, env, each=True)
        followed.update(g.about)
        stats['functions_judged'] += 1
        for node, v, empty in got:
            if v == 'zero':
                continue
            inner = v[1] if kind(v) == 'nest' else v
            if inner == 'plain':
                inner = ('f', {}, {})
            if kind(inner) != 'f':
                stats['answers_undecided'] += 1
                undecided.append(f.qual)
                continue
            stats['answers_judged'] += 1
            sign, power = want
            gone = lambda l: {x: c for x, c in l.items() if not (isinstance(x, tuple) and x[0] in ('sum', 'len') and x[1] in empty)}
            inner = ('f', gone(inner[1]), gone(inner[2]))
            sign = gone(sign)
            power = gone(power) if power is not None else None
            if free_length:
                # minus one length of the permutation; which one is C20's business
                props = [x for x in inner[2] if isinstance(x, tuple) and x[0] == 'prop' and 'length' in x[1]]
                power = {D: 1, props[0] if len(props) == 1 else ('prop', 'its length'): -1}
            if inner[2] != power:
                out.append(Finding('power', f, node, 'a term of %s has beta to the power %s, where it should be %s' % (f.name, describe(inner[2]), describe(power)), '%s power %s' % (f.name, describe(inner[2]))))
            elif inner[1] != mod2(sign):
                out.append(Finding('sign', f, node, 'a term of %s has the sign (-1)**(%s), where it should be (-1)**(%s)' % (f.name, describe(inner[1]), describe(mod2(sign))), '%s sign %s' % (f.name, describe(inner[1]))))
        for h, node, a, b in g.mixed:
            out.append(Finding('mixed', h, node, 'terms with beta to the power %s are added to terms with beta to the power %s' % (describe(b[2]), describe(a[2])), '%s mixed' % f.name))

    c = p.need_class('SymmetricPolynomial')
    for name, f in sorted(c.methods.items()):
        want = wanted(name)
        ps = f.params()
        if want is None or len(ps) < 3 or ps[2] != 'mu':
            continue
        env = {ps[0]: ('cls', c), ps[1]: ('num', {'num_variables': 1}), 'mu': ('obj', 'mu')}
        if 'nu' in ps:
            env['nu'] = ('obj', 'nu')
        probe = Grade(p)
        from ..grade import Frame
        skip = False
        d = f.defaults()
        for x in ps[3:]:
            if x == 'nu':
                continue
            if x == 'degree_bound' or x not in d:
                env[x] = 'plain'
                skip = skip or x == 'beta'
            else:
                env[x] = probe.ev(Frame(f, {}), d[x])
        if not skip:
            judge(f, env, want)
    c = p.need_class('Permutation')
    for name in WORDS:
        f = c.methods.get(name)
        if f is None:
            continue
        ps = f.params()
        env = {ps[0]: ('self', c)}
        env.update({x: 'plain' for x in ps[1:]})
        judge(f, env, ({}, None), True)
    stats['functions_followed'] = len(followed)
    uniq = {}
    for x in out:
        uniq.setdefault(x.key() if callable(getattr(x, 'key', None)) else x.text(), x)
    meta = {'explanation': 'Every named Schur and Grothendieck function is followed through its calls with powers of beta and of -1 as linear forms in the sizes of '
                           'its shapes, the lengths of words and the degree of the term; the forms must be the ones of its family.',
            'assumptions': ['counts of tableaux and words have nothing to do with beta, and are counts', 'undecided: ' + (', '.join(sorted(set(undecided))) or 'none')]}
    return list(uniq.values()), stats, meta
