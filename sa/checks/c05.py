"""C05: the text of an object depends on its value only."""
import ast

from ..core import Finding
from ..order import Order
from ..program import walk_own

NAMES = {'__repr__', '__str__', '__format__', 'serialize', 'tex', '__lt__', '__le__'}


def where(p, node):
    for f in p.funcs.values():
        if any(x is node for x in walk_own(f.node)):
            return f
    return None


def order(world):
    if getattr(world, '_order', None) is None:
        world._order = Order(world)
    return world._order


def texts(world, o):
    for f in world.program.funcs.values():
        flow = world.flow(f)
        if f.name in NAMES:
            yield f
        elif any(v is not None and 's' in o.kinds(v) for v, c, n in flow.returns):
            yield f


def check(world):
    p = world.program
    o = order(world)
    out, sinks, loops = [], 0, 0
    for f in texts(world, o):
        sinks += 1
        for kind, src in sorted(o.sums[f.qual], key=str):
            if src[0] == 'at':
                g = where(p, src[1])
                out.append(Finding('order-in-text', g or f, src[1], 'the order of %s (a set or dictionary) shows in the result of %s'
                                   % (ast.unparse(src[1])[:60], f.qual), '%s %s' % (f.qual, ast.unparse(src[1])[:60])))
    unordered = 0
    for f in p.funcs.values():
        for n in walk_own(f.node):
            it = n.iter if isinstance(n, (ast.For, ast.comprehension)) else None
            if it is not None and o.unordered(it):
                unordered += 1
    cov = dict(world.engine_stats())
    cov.update({'text_functions': sinks, 'functions_summarised': len(o.sums), 'unordered_iterations': unordered})
    meta = {
        'explanation': 'Order-taint analysis: an iteration over a set, dictionary or dictionary-like object (by inferred type) marks the '
                       'sequences and strings built from it; only sorting by a key that tells all elements apart, or an order-free '
                       'operation, removes the mark; no mark may reach a text.',
        'assumptions': ['elements that are sorted without a key are comparable and distinct'],
    }
    return out, cov, meta
