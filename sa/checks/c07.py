"""C07: operations that hand out their answers one at a time can be interleaved and abandoned."""
import ast

from ..canon import definitions, roots
from ..cfg import CFG, own_nodes
from ..core import Finding
from ..flow import MUT
from ..program import walk_own
from .c02 import Memo

EMPTY = frozenset()
GROW = {'append', 'extend', 'insert', 'add', 'update', 'appendleft', 'remove', 'pop', 'clear', 'discard', 'popitem'}
ITEMS = {'items', 'keys', 'values'}


class Shared:
    """which expressions denote a memo table, or an entry of one that grows"""

    def __init__(self, world):
        self.w, self.p = world, world.program
        self.memo = Memo(world)
        self.growing = set()      # tables whose entries are added to after they are stored
        self.filled = set()       # tables that get new keys inside functions
        for f in self.p.funcs.values():
            flow = world.flow(f)
            for n in walk_own(f.node):
                base = None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in GROW:
                    base = n.func.value
                elif isinstance(n, ast.AugAssign):
                    base = n.target
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    if self.entry(f, flow, n.value):
                        self.growing.add(self.entry(f, flow, n.value))
                    elif self.table(f, flow, n.value):
                        self.filled.add(self.table(f, flow, n.value))
                    continue
                if base is not None:
                    e = self.entry(f, flow, base)
                    if e:
                        self.growing.add(e)
                    elif self.table(f, flow, base):
                        self.filled.add(self.table(f, flow, base))
        for f in self.p.funcs.values():
            for n in walk_own(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'setdefault':
                    t = self.table(f, world.flow(f), n.func.value)
                    if t:
                        self.filled.add(t)

    def table(self, f, flow, e):
        t = self.memo.table_of(f, flow, e)
        return t if t and t[0] != 'param' else None

    def entry(self, f, flow, e, depth=0):
        """T[key], or a name for it -> identity of T"""
        if depth > 5:
            return None
        if isinstance(e, ast.Subscript) and not isinstance(e.slice, ast.Slice):
            return self.table(f, flow, e.value)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('get', 'setdefault'):
            return self.table(f, flow, e.func.value)
        if isinstance(e, ast.Name):
            ds = roots(definitions(flow, e))
            if len(ds) == 1:
                d = next(iter(ds))
                if d.kind == 'assign' and d.whole is not None:
                    return self.entry(self.p.func_of_node.get(d.scope.node, f), d.scope, d.whole, depth + 1)
        return None

    def live(self, f, flow, e):
        """identity of the growing entry e denotes, or None"""
        t = self.entry(f, flow, e)
        return t if t in self.growing else None


def yields(a):
    return a is not None and any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(a))


class Generator:
    """what one generator does with growing entries between the points where it is suspended"""

    def __init__(self, sh, f, out):
        self.sh, self.f, self.out = sh, f, out
        self.flow = sh.w.flow(f)
        self.cfg = CFG(f.node)
        self.reads = self.appends = 0
        self.reported = set()
        self.before = self.cfg.forward((EMPTY, EMPTY, EMPTY), self.step, self.join)
        for n in self.cfg.nodes:
            if n in self.before:
                self.step(n, self.before[n], True)

    @staticmethod
    def join(a, b):
        # looked at, looked at before a suspension, certainly compared with since the last suspension
        return a[0] | b[0], a[1] | b[1], a[2] & b[2]

    def extent(self, e):
        """(growing entry, how): uses of e whose answer depends on how far the entry has grown"""
        live = lambda x: self.sh.live(self.f, self.flow, x)
        for n in own_nodes(e):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                t = live(n.value)
                if t:
                    s = n.slice
                    if isinstance(s, ast.Slice):
                        yield t, 'slice', n
                    elif isinstance(s, ast.UnaryOp) and isinstance(s.op, ast.USub) or isinstance(s, ast.Constant) and isinstance(s.value, int) and s.value < 0 or \
                            any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'len' and x.args and live(x.args[0]) == t for x in ast.walk(s)):
                        yield t, 'end', n
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('len', 'list', 'tuple', 'enumerate', 'reversed', 'zip', 'sorted', 'set'):
                for x in n.args:
                    t = live(x)
                    if t:
                        yield t, 'slice', n

    def step(self, n, state, report=False):
        looked, stale, fresh = state
        a = n.ast
        if a is None or n.kind == 'iter':
            if n.kind == 'iter':
                t = self.sh.live(self.f, self.flow, a.iter)
                if t:
                    # going through the live list to its end
                    return {'item': (looked | {t}, stale, fresh), 'done': (looked | {t}, stale - {t}, fresh | {t})}
            return state
        for t, how, node in self.extent(a):
            if report:
                self.reads += 1
            if how == 'end' and t in stale and t not in fresh:
                if report:
                    self.say('moved-end', node, '%s is read from its end again after answers were handed out: in between another use of the same operation may have made it longer'
                             % ast.unparse(node.value), ast.unparse(node))
            looked = looked | {t}
        if n.kind == 'test' or isinstance(a, ast.Assert):
            for x in own_nodes(a):
                t = self.sh.live(self.f, self.flow, x) if isinstance(x, (ast.Subscript, ast.Name, ast.Call)) else None
                if t and any(isinstance(y, (ast.Compare,)) for y in own_nodes(a)):
                    fresh = fresh | {t}
                elif t:
                    looked = looked | {t}
        for x in own_nodes(a):
            t = None
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in GROW:
                t = self.sh.live(self.f, self.flow, x.func.value)
            elif isinstance(x, ast.AugAssign):
                t = self.sh.live(self.f, self.flow, x.target)
            if t:
                if report:
                    self.appends += 1
                if t not in fresh and report:
                    self.say('unchecked-growth', x, '%s is added to without comparing its length since the last answer was handed out: '
                             'another use of the same operation may have added the same already' % ast.unparse(x.func.value if isinstance(x, ast.Call) else x.target),
                             ast.unparse(x)[:50])
        if yields(a):
            stale = stale | looked
            fresh = EMPTY
        return looked, stale, fresh

    def say(self, rule, node, message, detail):
        if id(node) not in self.reported:
            self.reported.add(id(node))
            self.out.append(Finding(rule, self.f, node, message, detail))


def accumulated(f):
    """names changed step by step: name -> statement nodes' ids holding the change"""
    out = {}
    for n in walk_own(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and isinstance(n.func.value, ast.Name):
            out.setdefault(n.func.value.id, []).append(n)
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            out.setdefault(n.target.id, []).append(n)
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
            out.setdefault(n.value.id, []).append(n)
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and \
                any(isinstance(x, ast.Name) and x.id == n.targets[0].id for x in ast.walk(n.value)):
            out.setdefault(n.targets[0].id, []).append(n)
    return out


def content_names(e):
    """names whose contents a stored value is made of"""
    if isinstance(e, ast.Name):
        return {e.id}
    if isinstance(e, ast.Starred):
        return content_names(e.value)
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        return set().union(*[content_names(x) for x in e.elts]) if e.elts else set()
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Name) and e.func.id in ('list', 'tuple', 'set', 'frozenset', 'dict', 'sorted') and e.args:
            return content_names(e.args[0])
        if isinstance(e.func, ast.Attribute) and e.func.attr == 'copy':
            return content_names(e.func.value)
    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
        return content_names(e.value)
    return set()


def early_stores(sh, f, out):
    """answers remembered before they are complete, in a function that can be left in between"""
    flow, cfg = sh.w.flow(f), CFG(f.node)
    acc = accumulated(f)
    holder = {}
    for n in cfg.nodes:
        if n.ast is not None:
            for x in own_nodes(n.ast if n.kind != 'iter' else n.ast.target):
                holder[x] = n
    count = 0
    for n in walk_own(f.node):
        if not isinstance(n, ast.Assign):
            continue
        for t in n.targets:
            if not (isinstance(t, ast.Subscript) and sh.table(f, flow, t.value)):
                continue
            count += 1
            here = holder[n]
            for name in sorted(content_names(n.value) | {x.id for x in n.targets if isinstance(x, ast.Name)}):
                changes = [holder[x] for x in acc.get(name, ()) if x in holder]
                fresh = {m for m in cfg.nodes if isinstance(m.ast, ast.Assign) and m not in changes and
                         any(isinstance(y, ast.Name) and y.id == name for z in m.ast.targets for y in ast.walk(z) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store))}
                after = cfg.reach(here, fresh)
                if any(c in after for c in changes):
                    out.append(Finding('early', f, n, '%s is remembered in %s before it is complete: when the caller stops here, a part of the answer is kept for the whole'
                                       % (name, ast.unparse(t.value)), '%s %s' % (ast.unparse(t.value), name)))
    for n in walk_own(f.node):
        if isinstance(n, ast.Try) and any(yields(s) for s in n.body):
            blocks = [n.finalbody] + [h.body for h in n.handlers]
            for b in blocks:
                for s in b:
                    for x in ast.walk(s):
                        if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and sh.table(f, flow, x.value):
                            out.append(Finding('early', f, x, 'an answer is remembered in %s even when the caller stopped before it was complete' % ast.unparse(x.value),
                                               '%s finally' % ast.unparse(x.value)))
    return count


def check(world):
    p = world.program
    sh = Shared(world)
    out = []
    gens = reads = appends = stores = loops = 0
    for f in p.funcs.values():
        if isinstance(f.node, ast.Lambda) or not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(f.node)):
            continue
        gens += 1
        g = Generator(sh, f, out)
        reads += g.reads
        appends += g.appends
        stores += early_stores(sh, f, out)
        flow = world.flow(f)
        for n in walk_own(f.node):
            if isinstance(n, ast.For) and any(yields(s) for s in n.body):
                it = n.iter
                loops += 1
                while isinstance(it, ast.Call) and (isinstance(it.func, ast.Name) and it.func.id in ('enumerate', 'iter', 'zip', 'map', 'filter') and it.args):
                    it = it.args[-1]
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ITEMS:
                    it = it.func.value
                t = sh.table(f, flow, it)
                if t in sh.filled:
                    out.append(Finding('open-loop', f, n, 'hands out answers while it goes through %s, which other calls add to' % ast.unparse(it), ast.unparse(it)))
                t = sh.live(f, flow, it)
                if t and any(k in ('set', 'dict', 'ddict') for k in _kinds(world, it)):
                    out.append(Finding('open-loop', f, n, 'hands out answers while it goes through %s, which other calls add to' % ast.unparse(it), ast.unparse(it)))
    cov = {'generators': gens, 'looks_at_growing_answers': reads, 'growth_sites_in_generators': appends, 'memo_stores_in_generators': stores, 'yielding_loops': loops}
    meta = {
        'explanation': 'Typestate over the control flow graph of every generator: between two suspensions (yield) what a generator has '
                       'learnt about a remembered answer that grows is forgotten; adding to it needs a comparison since the last '
                       'suspension, reading from its end is only allowed if nothing was handed out since it was first looked at; an '
                       'answer is remembered only when no further step can add to it; no suspension while going through a table that '
                       'other calls fill.',
        'assumptions': ['one thread; generators are advanced by their callers in any order and may be dropped'],
    }
    return out, cov, meta


def _kinds(world, e):
    from ..absint import kinds_of
    return kinds_of(world.eng.types.get(e, ()))
