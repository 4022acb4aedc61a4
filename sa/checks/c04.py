"""C04: equal objects hash equally."""
import ast

from ..absint import kind_cls
from ..core import Finding
from ..program import walk_own
from ..rules import lazy_slots
from .c05 import order, where

IMPLICIT = {'str': ('__str__', '__repr__'), 'repr': ('__repr__',), 'len': ('__len__',), 'hash': ('__hash__',), 'bool': ('__bool__', '__len__'),
            'tuple': ('__iter__',), 'list': ('__iter__',), 'sorted': ('__iter__',), 'frozenset': ('__iter__',), 'set': ('__iter__',), 'iter': ('__iter__',), 'sum': ('__iter__',)}


class Reads:
    def __init__(self, p):
        self.p = p

    def method(self, cls, name, seen):
        """attributes of the receiver a method can read"""
        m = cls.find(name)
        if m is None or (cls.name, name) in seen or not m.params():
            return set()
        seen = seen | {(cls.name, name)}
        return self.body(cls, m, m.params()[0], seen)

    def body(self, cls, m, me, seen):
        out = set()
        for n in ast.walk(m.node):
            out |= self.direct(cls, n, me, seen)
        return out

    def expr(self, cls, e, me, seen=frozenset()):
        out = set()
        for n in ast.walk(e):
            out |= self.direct(cls, n, me, seen)
        return out

    def direct(self, cls, n, me, seen):
        is_me = lambda x: isinstance(x, ast.Name) and x.id == me
        if isinstance(n, ast.Attribute) and is_me(n.value):
            if cls.find(n.attr) is not None:
                return self.method(cls, n.attr, seen)
            if n.attr.startswith('__') or any(n.attr in c.attrs for c in cls.mro()):
                return set()
            return {n.attr}
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in IMPLICIT and any(is_me(a) for a in n.args):
            for d in IMPLICIT[n.func.id]:
                if cls.find(d) is not None:
                    return self.method(cls, d, seen)
        if isinstance(n, (ast.For, ast.comprehension)) and is_me(n.iter):
            return self.method(cls, '__iter__', seen)
        if isinstance(n, ast.Subscript) and is_me(n.value):
            return self.method(cls, '__getitem__', seen)
        if isinstance(n, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) and is_me(x) for o, x in zip(n.ops, n.comparators)):
            return self.method(cls, '__contains__', seen)
        return set()


def equality_basis(r, cls, eq):
    """attributes that equal objects are known to agree on; None when it cannot be told"""
    ps = eq.params()
    if len(ps) < 2:
        return None
    me, other = ps[0], ps[1]
    out, found = set(), False

    def mentions(e, x):
        return any(isinstance(n, ast.Name) and n.id == x for n in ast.walk(e))

    for n in ast.walk(eq.node):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
            a, b = n.left, n.comparators[0]
            if mentions(a, other) and mentions(b, me) and not (mentions(a, me) or mentions(b, other)):
                a, b = b, a
            if mentions(a, me) and mentions(b, other) and not mentions(a, other) and not mentions(b, me):
                if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == 'type':
                    continue
                pairs = list(zip(a.elts, b.elts)) if isinstance(a, ast.Tuple) and isinstance(b, ast.Tuple) else [(a, b)]
                for x, y in pairs:
                    got = r.expr(cls, x, me)
                    if got and got == r.expr(cls, y, other):
                        out |= got
                        found = True
        # decided on the difference
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.BinOp) and isinstance(n.value.op, ast.Sub) and mentions(n.value, me) and mentions(n.value, other):
            m = cls.find(n.attr)
            out |= r.method(cls, n.attr, frozenset()) if m is not None else {n.attr}
            found = True
    # difference held in a local name, or comparison through a helper
    if not found:
        for n in ast.walk(eq.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.BinOp) and isinstance(n.value.op, ast.Sub) and mentions(n.value, me) and mentions(n.value, other) \
                    and isinstance(n.targets[0], ast.Name):
                d = n.targets[0].id
                got = set()
                for x in ast.walk(eq.node):
                    got |= r.direct(cls, x, d, frozenset())
                out |= got
                found = found or bool(got)
    return out if found else None


def check(world):
    p = world.program
    o = order(world)
    r = Reads(p)
    out = []
    slots = lazy_slots(p)
    classes = pairs = 0
    unknown = []
    for c in p.classes.values():
        eq, h = c.find('__eq__'), c.find('__hash__')
        own_eq, own_h = c.methods.get('__eq__'), c.methods.get('__hash__')
        if own_eq is not None and own_h is None and '__hash__' not in c.attrs and h is not None:
            out.append(Finding('hash-lost', own_eq, own_eq.node, '%s defines __eq__ without __hash__, so its objects cannot be hashed any more' % c.name, c.name))
        if h is None:
            continue
        classes += 1
        for kind, src in sorted(o.sums[h.qual], key=str):
            if src[0] == 'at' and h.cls is c:
                out.append(Finding('order-in-hash', where(p, src[1]) or h, src[1], 'the order of %s (a set or dictionary) shows in the hash of %s'
                                   % (ast.unparse(src[1])[:60], c.name), '%s %s' % (c.name, ast.unparse(src[1])[:60])))
        if eq is None:
            if any('dict' in x.ext_bases or 'set' in x.ext_bases or 'list' in x.ext_bases for x in c.mro()):
                extra = r.method(c, '__hash__', frozenset())
                for a in sorted(extra - set(dir(dict)) - set(dir(set)) - set(dir(list))):
                    out.append(Finding('hash-beyond-eq', h, h.node, 'the hash of %s uses %s, which equality of its objects does not compare' % (c.name, a), '%s %s' % (c.name, a)))
                pairs += 1
            continue
        hb = r.method(c, '__hash__', frozenset())
        eb = equality_basis(r, c, eq)
        if eb is None:
            unknown.append(c.name)
            continue
        pairs += 1
        lazy = {a for (k, a) in slots if k in {x.name for x in c.mro()}}
        for a in sorted(hb - eb - lazy):
            out.append(Finding('hash-beyond-eq', h, h.node, 'the hash of %s uses %s, which equality of its objects does not compare' % (c.name, a), '%s %s' % (c.name, a)))
        for n in walk_own(h.node):
            if isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == 'id' or ast.unparse(n.func) in ('object.__hash__', 'super().__hash__')):
                out.append(Finding('hash-by-identity', h, n, 'the hash of %s uses object identity' % c.name, c.name))
    # constant polynomials equal the integer they stand for
    pc = p.classes.get('Polynomial')
    if pc is not None and pc.find('__hash__') is not None:
        h = pc.find('__hash__')
        flow = world.flow(h)
        plain = 0
        for v, ctl, n in flow.returns:
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'hash' and v.args and o.kinds(v.args[0]) and o.kinds(v.args[0]) <= {'i', 'b'}:
                plain += 1
            elif isinstance(v, ast.IfExp) and any(isinstance(x, ast.Call) and x.args and o.kinds(x.args[0]) and o.kinds(x.args[0]) <= {'i', 'b'} for x in (v.body, v.orelse)):
                plain += 1
        if not plain:
            out.append(Finding('hash-of-constant', h, h.node, 'a constant Polynomial equals an integer but never hashes like one', 'Polynomial'))
    cov = dict(world.engine_stats())
    cov.update({'classes_with_hash': classes, 'eq_hash_pairs_compared': pairs, 'undecided': unknown})
    meta = {
        'explanation': 'For every class: the attributes __hash__ can read (through methods, properties and implicit operations) are among '
                       'those __eq__ compares; no iteration order of a set or dictionary reaches the hash (order-taint analysis); no '
                       'class loses its hash by redefining equality; constant polynomials hash as integers.',
        'assumptions': ['coefficient maps hold no zero entries (decided under C18)'],
    }
    return out, cov, meta
