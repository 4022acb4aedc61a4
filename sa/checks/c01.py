"""C01: operations leave their arguments and receivers unchanged."""
from ..rules import events, finding, lazy_slots, is_self_only, short_site

WHAT = {'mutE': 'changes in place a container that belongs to the caller',
        'setattr': 'assigns an attribute of an object that belongs to the caller'}


def check(world):
    p, e = world.program, world.eng
    slots = lazy_slots(p)
    out = []
    lazy = 0
    for kind, qual, node, detail, ctx in events(e, 'mutE', 'setattr'):
        if kind == 'setattr' and detail[0] not in ('E', 'any'):
            continue
        f = p.funcs.get(qual)
        if kind == 'setattr':
            cls, attr = detail[1], detail[2]
            names = [c.name for c in p.classes[cls].mro()] if cls in p.classes else []
            if any((c, attr) in slots for c in names) and f is not None and is_self_only(f):
                lazy += 1
                continue
            d = '%s.%s' % (cls, attr)
        else:
            # a container the object itself created for one of its lazy slots, in the
            # method that fills the slot
            site = detail[1]
            if f is not None and is_self_only(f) and site.split('@')[-1].split(':')[1:2] == [qual] \
                    and fills_slot(f, slots):
                lazy += 1
                continue
            d = '%s %s' % (detail[0], short_site(site))
        out.append(finding(p, kind, qual, node, '%s: %s' % (WHAT[kind], d), d, e.chain(ctx)))
    cov = dict(world.engine_stats())
    cov['mutating_sites'] = len(e.mutation_sites)
    cov['lazy_slot_fills_allowed'] = lazy
    meta = {
        'explanation': 'Whole-program ownership analysis (abstract interpretation over the syntax tree, one entry per '
                       'public operation, arguments and receiver owned by the caller): no store, delete, mutator call or '
                       'augmented assignment may reach an object owned by the caller, except a private attribute that '
                       'starts as None and is filled from the receiver alone.',
        'assumptions': ['callers pass values of the documented types (sa/contracts.py)',
                        'functions passed in by the caller do not themselves mutate library objects'],
    }
    return out, cov, meta


def fills_slot(f, slots):
    from ..rules import method_root
    import ast
    from ..program import walk_own
    r = method_root(f)
    names = {a for (c, a) in slots if c in [k.name for k in r.cls.mro()]}
    return any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in names for n in walk_own(f.node))
