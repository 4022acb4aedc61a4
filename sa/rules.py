"""Pieces shared by the rules."""
import ast

from .core import Finding
from .program import walk_own


def events(eng, *kinds):
    """(kind, func qual, node, detail, ctx)"""
    for k, (ctx, node) in sorted(eng.events.items(), key=lambda kv: tuple(map(str, kv[0]))):
        if k[0] in kinds:
            yield k[0], k[1], node, k[4:], ctx


def short_site(s):
    """a construction site without its position"""
    return ':'.join(s.split(':')[:-2]) if s.count(':') >= 3 else s


def lazy_slots(program):
    """{(class name, attribute)}: attributes that start as None in __init__ (or
    its class body) and are filled in later, and the functions that fill them"""
    slots = {}
    for c in program.classes.values():
        ini = c.methods.get('__init__')
        none = set()
        other = set()
        if ini is None:
            continue
        me = ini.params()[0]
        for n in walk_own(ini.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                        if isinstance(n.value, ast.Constant) and n.value.value is None:
                            none.add(t.attr)
                        else:
                            other.add(t.attr)
        for a in none - other:
            slots[(c.name, a)] = c
    return slots


def attr_stores(program):
    """every attribute store/delete: (Func, base expr, attr name, node)"""
    for f in program.funcs.values():
        for n in walk_own(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                yield f, n.value, n.attr, n


def method_root(f):
    while f.parent is not None:
        f = f.parent
    return f


def is_self_only(f):
    """a method (or a function nested in one) with no input but its receiver"""
    r = method_root(f)
    return r.cls is not None and r.kind in ('method', 'property') and len(r.all_params()) == 1


def func_of(program, qual):
    return program.funcs.get(qual, qual)


def finding(program, kind, qual, node, message, detail='', path=()):
    return Finding(kind, func_of(program, qual), node, message, detail, path)
