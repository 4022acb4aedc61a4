"""C32: objects and memo tables do not share their collections with callers."""
import ast

from ..absint import Interp, objs, site_base, site_region, site_kind
from ..core import Finding
from ..rules import short_site

MUTABLE = ('list', 'set', 'dict', 'ddict', 'deque')


def inside(e, x):
    return [a for s in {x, site_base(x)} for part in ('elem', 'key') for a in e.heap.get((s, part), ())]


def around(f):
    while f is not None:
        yield f
        f = f.parent


class Reach:
    """functions one can get to from another, going by the names mentioned in them"""

    def __init__(self, p):
        self.p = p
        self.names = {}
        self.by_name = {}
        for f in p.funcs.values():
            self.by_name.setdefault(f.name, set()).add(f)
        self.memo = {}

    def mentioned(self, f):
        if f not in self.names:
            out = set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute):
                    out.add(n.attr)
                elif isinstance(n, ast.Name) and n.id not in f.all_params() and isinstance(n.ctx, ast.Load) and \
                        (self.p.resolve_name(f.module, n.id) is not None or any(g.name == n.id for h in around(f) for g in h.nested)):
                    out.add(n.id)
            self.names[f] = out
        return self.names[f]

    def closure(self, f):
        if f not in self.memo:
            seen, work = set(), [f]
            while work:
                g = work.pop()
                if g in seen:
                    continue
                seen.add(g)
                work += g.nested
                for x in self.mentioned(g):
                    work += self.by_name.get(x, ())
                    if x in self.p.classes:
                        work += [m for m in self.p.classes[x].methods.values() if m.name.startswith('__')]
            self.memo[f] = {g.qual for g in seen}
        return self.memo[f]

    def made_by(self, f, site):
        return any((':%s:' % q) in site + ':' for q in self.closure(f))


def results(world, regions=('C', 'E', 'G')):
    """the collections handed out that a memo table, an object or module-level state keeps"""
    p, e = world.program, world.eng
    out = []
    n = classified = 0
    reach = Reach(p)
    for c, f, fv, args in e.entry_roots:
        r = Interp(e, c).call_value(fv, args, {}, f.node)
        n += 1
        direct = set(objs(r, deep=False))
        for x in sorted(direct, key=str):
            if site_kind(x) in ('gen', 'iter'):
                # what a generator hands out one at a time is its answer
                direct |= set(objs(inside(e, x), deep=False))
        handed, work = set(), list(objs(r))
        while work:
            x = work.pop()
            if x not in handed:
                handed.add(x)
                if site_kind(x) in MUTABLE or site_kind(x) in ('gen', 'iter', 'view'):
                    work += objs(inside(e, x))
        classified += len(handed)
        for x in sorted(direct | handed, key=str):
            if site_kind(x) not in MUTABLE or site_region(x) not in regions:
                continue
            name = e_site_name(e, c, x)
            if '@' not in name:
                continue       # the caller's own argument handed back
            if x not in direct and not reach.made_by(f, name):
                # lies in something of the caller's own; or the analysis mixes up two users of one decorator
                continue
            where = {'C': 'a memo table', 'E': 'an object the caller also holds', 'G': 'module-level state'}[site_region(x)]
            out.append(Finding('exposed', f, f.node, '%s the %s held by %s (made at %s)' % ('returns' if x in direct else 'returns, inside a collection,', site_kind(x), where, short_site(name)),
                               '%s %s' % (site_region(x), short_site(name))))
    return out, n, classified


def check(world):
    p, e = world.program, world.eng
    out, n, classified = results(world)
    attrs = 0
    for k, v in sorted(e.heap.items(), key=lambda kv: str(kv[0])):
        if k[0][0] != 'attr':
            continue
        attrs += 1
        cls, name = k[0][1], k[1]
        held, work = set(), list(objs(v, deep=False))
        while work:
            x = work.pop()
            if x not in held and site_kind(x) in MUTABLE:
                held.add(x)
                work += objs(inside(e, x))
        for x in sorted(held, key=str):
            if site_region(x) == 'E' and '@' not in e_site_name(e, None, x):
                fn = next((p.classes[c].methods.get('__init__') for c in [cls] if c in p.classes), None)
                out.append(Finding('captured', fn or cls, getattr(fn, 'node', None),
                                   'the attribute %s.%s may be, or hold, the very %s the caller passed in' % (cls, name, site_kind(x)),
                                   '%s.%s %s' % (cls, name, site_kind(x)), file=p.classes[cls].module.file if cls in p.classes else None))
    cov = dict(world.engine_stats())
    cov.update({'results_classified': n, 'collections_in_results': classified, 'attribute_slots_classified': attrs})
    meta = {
        'explanation': 'Ownership analysis of the whole program: the collection a public operation returns must not be one '
                       'that a memo table, module-level state or an object keeps, and no attribute may hold the list, set '
                       'or dict the caller passed to a constructor. What a generator hands out, and collections inside returned '
                       'collections, are classified too (the latter when made by what the operation calls, not by the caller).',
        'assumptions': ['callers pass values of the documented types (sa/contracts.py)'],
    }
    return out, cov, meta


def e_site_name(e, c, x):
    return Interp(e, c or e.ctx_list[0]).site_name(x)
