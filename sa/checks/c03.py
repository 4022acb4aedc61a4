"""C03: memoised answers and library-wide state stay as they were first computed."""
from .c32 import results
from ..rules import events, finding, lazy_slots, is_self_only, short_site

TEXT = {
    'mutC': 'changes in place a container reachable from a memo table',
    'setattr': 'assigns an attribute of an object reachable from a memo table or module state',
    'gwrite': 'rebinds a module-level or class-level name at run time',
    'mutG': 'changes module-level state that is not a memo table',
    'cache-lazy': 'stores a one-shot iterator in a memo table',
    'cache-arg': 'stores a container owned by the caller in a memo table',
}


def check(world):
    p, e = world.program, world.eng
    slots = lazy_slots(p)
    out = []
    stores = levels = 0
    for kind, qual, node, detail, ctx in events(e, *TEXT):
        f = p.funcs.get(qual)
        d = ' '.join(map(str, detail))
        if kind == 'setattr':
            if detail[0] not in ('C', 'G'):
                continue
            cls, attr = detail[1], detail[2]
            names = [c.name for c in p.classes[cls].mro()] if cls in p.classes else []
            if any((c, attr) in slots for c in names) and f is not None and is_self_only(f):
                continue
            d = '%s.%s' % (cls, attr)
        elif kind == 'gwrite' and qual.endswith('<module>'):
            continue
        elif kind == 'mutG':
            how, site = detail
            if qual.endswith('<module>'):
                continue
            if site.startswith(('dict@', 'ddict@')) and how in ('[..] = ', '.setdefault', '.update', 'del [..]', '.pop', '.clear'):
                stores += 1
                continue
            d = '%s %s' % (how, short_site(site))
        elif kind == 'mutC':
            how, site = detail
            # the per-key list of a module-level defaultdict table, extended at its end
            if how == '.append' and site.startswith('list@') and '.<module>:' in site:
                levels += 1
                continue
            d = '%s %s' % (how, short_site(site))
        out.append(finding(p, kind, qual, node, '%s: %s' % (TEXT[kind], d), d, e.chain(ctx)))
    handed, n, _ = results(world, ('C',))
    out += handed
    cov = dict(world.engine_stats())
    cov['results_classified'] = n
    cov.update({'memo_table_store_sites': stores, 'level_list_appends': levels, 'lazy_attributes': len(slots)})
    meta = {
        'explanation': 'Ownership analysis of the whole program: what is stored in a module-level table becomes shared, '
                       'and no later store, delete, mutator call or augmented assignment on any path may reach it, nor may '
                       'any module-level name, class attribute or module-level collection other than a memo table be '
                       'changed; no one-shot iterator and no container of the caller is stored, and no public operation hands out a '
                       'collection that a memo table keeps.',
        'assumptions': ['callers pass values of the documented types (sa/contracts.py)'],
    }
    return out, cov, meta
