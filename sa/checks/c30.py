"""C30: answers depend on the arguments only, not on chance, the clock, the environment or the process."""
import ast

from ..absint import kind_cls, kinds_of, site_base, site_kind
from ..core import Finding
from ..program import walk_own
from ..rules import events, finding
from .c05 import order, where

MODULES = {'random', 'time', 'datetime', 'secrets', 'uuid', 'platform', 'getpass', 'locale', 'socket'}
PLACES = {'os.environ', 'os.getenv', 'os.getpid', 'os.urandom', 'os.getcwd', 'os.listdir', 'os.times', 'sys.argv', 'sys.flags', 'sys.hash_info', 'sys.maxsize', 'sys.getrefcount', 'gc.get_objects'}


def elements(e, node):
    out = set()
    for a in e.types.get(node, ()):
        if a[0] == 'o' and site_kind(a[1]) in ('set', 'frozenset'):
            for s in {a[1], site_base(a[1])}:
                out |= set(e.heap.get((s, 'elem'), ()))
    return out


class Volatile:
    """values whose hash differs from one process to the next"""

    def __init__(self, p):
        self.p = p
        self.memo = {}

    def cls(self, name):
        if name in self.memo:
            return self.memo[name]
        self.memo[name] = False
        c = self.p.classes.get(name)
        h = c.find('__hash__') if c is not None else None
        if h is None:
            r = c is not None and c.find('__eq__') is None
        else:
            r = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('str', 'repr', 'id') for n in ast.walk(h.node))
        self.memo[name] = r
        return r

    def atoms(self, v, depth=0):
        for a in v:
            if a[0] in ('s', 'F', 'M', 'K', 'B'):
                return True
            if a[0] == 't' and depth < 4 and any(self.atoms(x, depth + 1) for x in a[1]):
                return True
            if a[0] == 't*' and depth < 4 and self.atoms(a[1], depth + 1):
                return True
            if a[0] == 'o':
                c = kind_cls(site_kind(a[1]))
                if c is not None and self.cls(c):
                    return True
        return False


def check(world):
    p, e = world.program, world.eng
    o = order(world)
    out = []
    for kind, qual, node, detail, ctx in events(e, 'nondet'):
        out.append(finding(p, 'chance', qual, node, 'the result can depend on %s' % (detail[0] if detail else ast.unparse(node)[:40]), str(detail[0] if detail else ''), e.chain(ctx)))
    reads = 0
    for f in p.funcs.values():
        for n in walk_own(f.node):
            if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load):
                reads += 1
                text = ''
                if isinstance(n, ast.Name) and n.id in f.module.imports:
                    i = f.module.imports[n.id]
                    text = i[1] if i[0] == 'mod' else '%s.%s' % (i[1], i[2])
                elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and f.module.imports.get(n.value.id, ('',))[0] == 'mod':
                    text = '%s.%s' % (f.module.imports[n.value.id][1], n.attr)
                if not text:
                    # a module imported on the spot
                    text = next((a[1] for a in sorted(e.types.get(n, ()), key=str) if a[0] == 'ext' and (a[1] in PLACES or a[1].split('.')[0] in MODULES)), '')
                if text and text not in p.modules and (text.split('.')[0] in MODULES or text in PLACES):
                    out.append(Finding('environment', f, n, 'uses %s' % text, text))
            if isinstance(n, (ast.Call, ast.keyword)):
                for x in n.args if isinstance(n, ast.Call) else [n.value]:
                    if isinstance(x, ast.Name) and x.id in ('id', 'hash') and f.name != '__hash__' and p.resolve_name(f.module, x.id) is None and x.id not in world.flow(f).locals:
                        out.append(Finding('identity', f, x, '%s, handed to another function here, differs from one process to the next' % x.id, x.id))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('id', 'hash') and f.name != '__hash__' and \
                    p.resolve_name(f.module, n.func.id) is None:
                ks = kinds_of(e.types.get(n.args[0], ())) if n.args else set()
                if n.func.id == 'id' or not ks or not ks <= {'i', 'b'}:
                    out.append(Finding('identity', f, n, '%s() differs from one process to the next' % n.func.id, n.func.id))
    vol = Volatile(p)
    sets = 0
    done = set()
    for f in p.funcs.values():
        for kind, src in sorted(o.sums[f.qual], key=str):
            if src[0] != 'at' or (src[1] in done):
                continue
            done.add(src[1])
            el = elements(e, src[1])
            if el:
                sets += 1
                if vol.atoms(el):
                    g = where(p, src[1]) or f
                    out.append(Finding('process-order', g, src[1], 'the order of the set %s differs from one process to the next and shows in the result of %s'
                                       % (ast.unparse(src[1])[:50], f.qual), ast.unparse(src[1])[:50]))
    cov = dict(world.engine_stats())
    cov.update({'names_resolved': reads, 'set_orders_reaching_results': sets})
    meta = {
        'explanation': 'Every name the library reads is resolved: none is a source of chance, time, process or environment; hash() and '
                       'id() of non-numbers are confined to __hash__; every set whose order reaches a result (order-taint analysis) '
                       'holds only values that hash alike in every process (inferred element types).',
        'assumptions': ['integers and tuples of integers hash alike in every process'],
    }
    return out, cov, meta
