"""C16: the answers of one operation are all of one kind."""
import ast

from .. import contracts
from ..absint import kind_cls, kinds_of, site_kind
from ..core import Finding
from ..flow import FUNCS
from ..program import walk_own
from .c18 import public_name, short

# operations whose answers are of several kinds on purpose
SEVERAL = {
    'Tableau.get': 'an entry is a number or a tuple of numbers', 'InsertionState.get': 'an entry is a number or a tuple of numbers',
    'CrystalMixin.__getitem__': 'the elements of the crystal, whatever they are',
}
NAMES = {'t': 'a tuple', 'list': 'a list', 'set': 'a set', 'frozenset': 'a frozen set', 'dict': 'a dictionary', 'lazy': 'a one-shot iterator', 'view': 'a view of a dictionary',
         's': 'a string', 'deque': 'a deque', 'number': 'a number', 'F': 'a function'}


def family(program, k):
    if k in ('i', 'b', 'f'):
        return 'number'
    if k in ('gen', 'iter'):
        return 'lazy'
    if k == 'ddict':
        return 'dict'
    if k in NAMES:
        return k
    c = program.classes.get(kind_cls(k) or '') if isinstance(k, str) else None
    if c is None:
        return None
    if c.name in ('Polynomial', 'Vector', 'SymmetricPolynomial', 'SymmetricMonomial'):
        return 'number'
    if c.ext_bases and 'dict' in c.ext_bases:
        return 'dict'
    return 'object:' + c.mro()[-1].name


def families(program, v):
    return {x for x in (family(program, k) for k in kinds_of(v)) if x is not None}


def members(eng, v):
    """container kind -> what it holds"""
    out = {}
    for a in v:
        if a[0] == 'o' and not site_kind(a[1]).startswith('inst:'):
            k = site_kind(a[1])
            for field in ('elem', 'key'):
                out[k, field] = out.get((k, field), frozenset()) | eng.content(a[1], field, None)
    return out


def describe(fams):
    return ', '.join(sorted(NAMES.get(x, 'a ' + x.split(':')[-1]) for x in fams))


def check(world):
    p, eng = world.program, world.eng
    api = contracts.api_names()
    out, judged, contexts, held = [], set(), 0, 0
    seen = set()
    for c in eng.ctx_list:
        f = c.func
        if f.qual not in p.funcs or not isinstance(f.node, FUNCS) or f.parent is not None or not public_name(f, api) or f.name == '__init__':
            continue
        judged.add(f.qual)
        contexts += 1
        if short(f) in SEVERAL:
            continue
        fams = families(p, c.ret)
        if len(fams) > 1 and (f.qual, 'answer') not in seen:
            seen.add((f.qual, 'answer'))
            out.append(Finding('kinds', f, odd(eng, p, f, fams), '%s answers %s, depending on its arguments' % (f.name, describe(fams)), short(f)))
        for (k, field), v in members(eng, c.ret).items():
            held += 1
            ks = kinds_of(v)
            fams = families(p, v)
            boxes = fams & {'t', 'list', 'set', 'frozenset', 'dict', 'lazy', 'view', 's', 'deque'}
            if len(boxes) > 1 and 'any' not in ks and (f.qual, field) not in seen:
                seen.add((f.qual, field))
                out.append(Finding('kinds', f, f.node, 'what %s answers holds %s side by side' % (f.name, describe(boxes)), short(f) + ' members'))
    cov = dict(world.engine_stats())
    cov.update({'operations_judged': len(judged), 'contexts_judged': contexts, 'collections_judged': held, 'operations_with_several_kinds': len(SEVERAL)})
    meta = {
        'explanation': 'The kinds (tuple, list, set, dictionary, iterator, string, number, class of object) of everything a public operation can return, '
                       'inferred for arguments of the documented types, must belong to one family; so must the members of a returned or '
                       'generated collection. Numbers, polynomials and vectors form one family; None is left to C18.',
        'assumptions': ['the argument types listed in sa/contracts.py'],
    }
    return out, cov, meta


def odd(eng, p, f, fams):
    """the return statement whose kind the fewest others share"""
    rets = [(families(p, eng.types.get(n.value, frozenset())), n) for n in walk_own(f.node) if isinstance(n, ast.Return) and n.value is not None]
    if not rets:
        return f.node
    count = {x: sum(1 for fs, _ in rets if x in fs) for x in fams}
    rare = min(sorted(count), key=lambda x: (count[x] == 0, count[x]))
    for fs, n in rets:
        if rare in fs:
            return n
    return f.node


