"""Where the order of a set or dictionary gets into a sequence or a text.

Marks: ('seq', src)  the sequence is in the order of an unordered collection
       ('val', src)  the value was picked or put together in that order
src is ('at', function, line-independent text, node) or ('param', node id, name).
"""
import ast

from .absint import kinds_of, kind_cls
from .canon import target
from .flow import FUNCS, Slice
from .program import Cls, walk_own

UNORDERED = {'set', 'dict', 'ddict', 'frozenset', 'HashableDict'}
SETTLING = {'set', 'frozenset', 'dict', 'sum', 'len', 'min', 'max', 'any', 'all', 'Counter', 'defaultdict', 'abs', 'bool', 'isinstance', 'type', 'range', 'int', 'divmod'}
CARRYING = {'list', 'tuple', 'iter', 'enumerate', 'zip', 'map', 'filter', 'reversed', 'next', 'deque', 'chain', 'islice'}
TEXTING = {'str', 'repr', 'format', 'join', 'hash', 'print'}
SEQ = {'list', 't', 's', 'deque', 'gen', 'iter'}
MAXROUNDS = 6


class Order:
    def __init__(self, world):
        self.w = world
        self.p = world.program
        self.types = world.eng.types
        self.memo = {}
        self.busy = set()
        self.sums = {}
        self.stores = None
        self.visited = set()
        self.loops = {}
        for _ in range(MAXROUNDS):
            before = {k: v for k, v in self.sums.items()}
            self.memo = {}
            for f in self.p.funcs.values():
                self.sums[f.qual] = self.summary(f)
            if before == self.sums:
                break

    # ----------------------------------------------------------------- types
    def kinds(self, e):
        return kinds_of(self.types.get(e, ()))

    def unordered(self, e):
        """marks if going through e follows the order of a set or dict"""
        out = set()
        for k in self.kinds(e):
            c = kind_cls(k)
            if c is not None:
                cls = self.p.classes.get(c)
                it = cls.find('__iter__') if cls is not None else None
                if it is not None:
                    if any(m[0] == 'seq' for m in self.sums.get(it.qual, ())):
                        out.add(('seq', ('at', e)))
                elif cls is not None and any('dict' in x.ext_bases or 'set' in x.ext_bases for x in cls.mro()):
                    out.add(('seq', ('at', e)))
            elif k in UNORDERED:
                out.add(('seq', ('at', e)))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('items', 'keys', 'values') and not e.args:
            if any(k in UNORDERED for k in self.kinds(e.func.value)) or self.dictlike(e.func.value):
                out.add(('seq', ('at', e)))
        return out

    def dictlike(self, e):
        for k in self.kinds(e):
            c = kind_cls(k)
            cls = self.p.classes.get(c) if c else None
            if cls is not None and any('dict' in x.ext_bases for x in cls.mro()):
                return True
        return False

    def through(self, func, flow, e):
        """marks of the order in which e is gone through"""
        return self.unordered(e) | {m for m in self.marks(func, flow, e)}

    # ----------------------------------------------------------- expressions
    def marks(self, func, flow, e):
        key = (id(flow), e)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            return frozenset()
        self.busy.add(key)
        try:
            out = frozenset(self.marks_(func, flow, e))
            ks = self.kinds(e)
            if ks and ks <= {'i', 'b', 'n'}:
                out = frozenset(m for m in out if m[0] == 'val')
        finally:
            self.busy.discard(key)
        self.memo[key] = out
        return out

    def all_val(self, ms):
        return {('val', s) for k, s in ms}

    def marks_(self, func, flow, e):
        go = lambda x: self.marks(func, flow, x)
        if isinstance(e, ast.Constant):
            return set()
        if isinstance(e, ast.Name):
            return self.name(func, flow, e)
        if isinstance(e, ast.Compare):
            out = set()
            for x in [e.left] + e.comparators:
                out |= {m for m in self.all_val(go(x))} if not all(isinstance(o, (ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in e.ops) else \
                    {m for m in go(x) if m[0] == 'val'}
            return out
        if isinstance(e, ast.Lambda):
            return set()
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            out = set()
            for g in e.generators:
                if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
                    out |= {m for m in self.through(func, flow, g.iter) if m[0] == 'seq'}
                for c in g.ifs:
                    out |= {m for m in go(c) if m[0] == 'val'}
            elts = [e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]
            for x in elts:
                out |= self.all_val(go(x))
            return out
        if isinstance(e, ast.Subscript):
            return self.all_val(go(e.value)) | self.all_val(go(e.slice))
        if isinstance(e, ast.Slice):
            return set().union(*[go(x) for x in (e.lower, e.upper, e.step) if x is not None] or [set()])
        if isinstance(e, (ast.JoinedStr, ast.FormattedValue)):
            out = set()
            for x in ast.iter_child_nodes(e):
                if isinstance(x, ast.FormattedValue):
                    out |= self.text(func, flow, x.value)
                elif isinstance(x, ast.expr):
                    out |= go(x)
            return out
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, ast.Mod) and 's' in self.kinds(e.left):
                out = set(go(e.left))
                for x in (e.right.elts if isinstance(e.right, ast.Tuple) else [e.right]):
                    out |= self.text(func, flow, x)
                return out
            ms = go(e.left) | go(e.right)
            if any(m[0] == 'seq' for m in ms) and 'set' in self.kinds(e):
                ms = {m for m in ms if m[0] == 'val'}
            return ms
        if isinstance(e, ast.IfExp):
            return set(go(e.body)) | set(go(e.orelse)) | {m for m in go(e.test) if m[0] == 'val'}
        if isinstance(e, ast.Attribute):
            out = set(self.all_val(go(e.value))) if not isinstance(e.value, ast.Name) else set()
            return out | self.attribute(e)
        if isinstance(e, ast.Call):
            return self.call(func, flow, e)
        if isinstance(e, (ast.Yield, ast.YieldFrom, ast.Await)):
            return set()
        out = set()
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                out |= go(x)
        return out

    def text(self, func, flow, e):
        """marks of the text of e"""
        out = self.all_val(self.marks(func, flow, e))
        for k in self.kinds(e):
            c = kind_cls(k)
            if c is not None:
                cls = self.p.classes.get(c)
                m = cls.find('__str__') or cls.find('__repr__') if cls is not None else None
                if m is not None:
                    out |= {x for x in self.all_val(self.sums.get(m.qual, ())) if x[1][0] != 'param'}
                elif cls is not None and any('dict' in x.ext_bases or 'set' in x.ext_bases for x in cls.mro()):
                    out.add(('val', ('at', e)))
            elif k in UNORDERED:
                out.add(('val', ('at', e)))
        return out

    def hashed(self, func, flow, e):
        return self.all_val(self.marks(func, flow, e))

    def attribute(self, e):
        """marks of what is stored in an attribute, or returned by a property"""
        out = set()
        for k in self.kinds(e.value):
            c = kind_cls(k)
            cls = self.p.classes.get(c) if c else None
            if cls is None:
                continue
            m = cls.find(e.attr)
            if m is not None:
                if m.kind == 'property':
                    out |= {x for x in self.sums.get(m.qual, ()) if x[1][0] != 'param'}
                continue
            for f, flow, v in self.attr_stores().get(e.attr, ()):
                if f.cls is not None and (f.cls in cls.mro() or cls in f.cls.mro()):
                    out |= {x for x in self.marks(f, flow, v) if x[1][0] != 'param'}
        return out

    def attr_stores(self):
        if self.stores is None:
            self.stores = {}
            for f in self.p.funcs.values():
                if f.cls is None or not f.params():
                    continue
                for n in walk_own(f.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == f.params()[0]:
                                self.stores.setdefault(t.attr, []).append((f, self.w.flow(f), n.value))
        return self.stores

    def call(self, func, flow, e):
        go = lambda x: self.marks(func, flow, x)
        args = [a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in e.keywords]
        fname = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else ''
        f = self.callee(func, e)
        if f is not None:
            out = set()
            got = self.sums.get(f.qual, ())
            if fname == '__iter__':
                got = [m for m in got if m[0] == 'seq'] or got
            ps = f.all_params()
            if f.kind in ('method', 'classmethod', 'property', 'decorated') and f.parent is None and not isinstance(e.func, ast.Name):
                recv, ps = ps[:1], ps[1:]
            elif f.kind in ('method', 'classmethod') and f.parent is None:
                ps = ps[1:]
            by = {}
            for i, a in enumerate(e.args):
                q = ps[min(i, len(ps) - 1)] if ps else None
                by.setdefault(q, []).append(a.value if isinstance(a, ast.Starred) else a)
            for k in e.keywords:
                by.setdefault(k.arg, []).append(k.value)
            for kind, src in got:
                if src[0] == 'param':
                    if src[1] != id(f.node):
                        out.add((kind, src))
                        continue
                    for a in by.get(src[2], ()):
                        for k2, s2 in go(a):
                            if k2 == src[3]:
                                out.add((kind, s2))
                else:
                    out.add((kind, src))
            return out
        if fname == 'sorted':
            src = go(e.args[0]) | self.unordered(e.args[0]) if e.args else set()
            keep = {m for m in src if m[0] == 'val'}
            key = next((k.value for k in e.keywords if k.arg == 'key'), None)
            if key is not None and not (isinstance(key, ast.Constant) and key.value is None):
                if not self.injective_key(func, flow, key, e.args[0]):
                    keep |= {m for m in src if m[0] == 'seq'}
            return keep
        if isinstance(e.func, ast.Name) and fname in SETTLING or fname in ('Counter', 'defaultdict'):
            return {m for a in args for m in go(a) if m[0] == 'val'}
        if fname in TEXTING and (isinstance(e.func, ast.Name) or fname in ('join', 'format')):
            out = set()
            if isinstance(e.func, ast.Attribute):
                out |= self.all_val(go(e.func.value))
            for a in args:
                if fname == 'join':
                    out |= self.all_val(self.through(func, flow, a))
                elif fname == 'hash':
                    out |= self.hashed(func, flow, a)
                else:
                    out |= self.text(func, flow, a)
            return out
        if fname in CARRYING and (isinstance(e.func, ast.Name) or fname in ('chain', 'islice')):
            out = set()
            for a in args:
                if self.is_function(a):
                    continue
                t = self.through(func, flow, a)
                out |= self.all_val(t) if fname in ('enumerate', 'zip', 'next') and fname != 'zip' or (fname == 'zip' and len(args) > 1 and any(m[0] == 'seq' for m in t) and not self.same_dict(args)) else t
            for a in args:
                # map(str, xs): the text of each element
                if fname == 'map' and isinstance(a, (ast.Name, ast.Lambda, ast.Attribute)) and self.is_function(a):
                    out |= self.function_text(func, a)
            return out
        out = set()
        if isinstance(e.func, ast.Attribute):
            r = e.func.value
            if fname in ('items', 'keys', 'values', '__iter__'):
                out |= {m for m in self.through(func, flow, r) if m[0] == 'seq'}
            if fname in ('items', 'keys', 'values', '__iter__', 'copy', 'strip', 'replace', 'split', 'rstrip', 'lstrip', 'upper', 'lower', 'ljust', 'rjust', 'center', 'encode'):
                out |= go(r)
            elif fname in ('get', 'index', 'pop', 'popleft'):
                out |= self.all_val(go(r))
                if fname == 'pop' and not args and not self.drained(func, e, r):
                    out |= self.all_val(self.unordered(r))
            else:
                out |= self.all_val(go(r)) if not isinstance(r, ast.Name) else {m for m in go(r) if m[0] == 'val'}
        for a in args:
            out |= go(a)
        return out

    def drained(self, func, e, r):
        """is r emptied by a loop around e, so that every element gets its turn?"""
        text = ast.unparse(r)
        return any(isinstance(w, ast.While) and any(ast.unparse(x) == text for x in ast.walk(w.test)) and any(x is e for x in ast.walk(w))
                   for w in ast.walk(func.node))

    def same_dict(self, args):
        return False

    def is_function(self, a):
        ks = self.kinds(a)
        return isinstance(a, ast.Lambda) or bool(ks) and ks <= {'F', 'M', 'B', 'K', 'bm', 'ext', 'cm'}

    def function_text(self, func, a):
        return set()

    def callee(self, func, e):
        t = target(self.p, func, e)
        if t is not None and t.name != '__init__':
            return t
        if isinstance(e.func, ast.Attribute):
            # by the type of the receiver
            cs = [kind_cls(k) for k in self.kinds(e.func.value)]
            cs = [self.p.classes[c] for c in cs if c in self.p.classes]
            fs = {c.find(e.func.attr) for c in cs}
            fs.discard(None)
            if len(fs) == 1:
                return fs.pop()
        return None

    # ------------------------------------------------------------------ names
    def name(self, func, flow, n):
        from .canon import definitions
        out = set()
        for d in definitions(flow, n):
            out |= self.definition(d)
        return out

    def func_of(self, flow):
        while flow is not None:
            f = self.p.func_of_node.get(flow.node)
            if f is not None:
                return f
            flow = flow.parent
        return None

    def enclosing_loops(self, flow, node):
        t = self.loops.get(id(flow))
        if t is None:
            t = {}
            def walk(x, ls):
                t[x] = ls
                if isinstance(x, (ast.For, ast.AsyncFor)):
                    for s in x.body:
                        walk(s, ls + (x,))
                    for y in ast.iter_child_nodes(x):
                        if y not in x.body:
                            walk(y, ls)
                    return
                if isinstance(x, FUNCS + (ast.Lambda,)) and x is not flow.node:
                    return
                for y in ast.iter_child_nodes(x):
                    walk(y, ls)
            walk(flow.node, ())
            self.loops[id(flow)] = t
        return t.get(node, ())

    def origins(self, ds, seen=None):
        """definitions a mutated or extended name goes back to"""
        seen = set() if seen is None else seen
        out = set()
        for d in ds:
            if d in seen:
                continue
            seen.add(d)
            if d.kind in ('mut', 'aug'):
                out |= self.origins(d.prev, seen)
            else:
                out.add(d)
        return out

    def ordered_growth(self, d, name):
        """marks from building a sequence up inside loops over unordered collections"""
        flow = d.scope
        func = self.func_of(flow)
        out = set()
        here = self.enclosing_loops(flow, d.node)
        for L in here:
            inside = set(ast.walk(L))
            if all(o.node in inside for o in self.origins(d.prev)) and d.prev:
                continue        # started afresh in every round
            out |= {m for m in self.through(func, flow, L.iter) if m[0] == 'seq'}
        return out

    def is_sequence(self, flow, n):
        k = self.kinds(n)
        return not k or bool(k & SEQ)

    def definition(self, d):
        key = ('def', d)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            return frozenset()
        self.busy.add(key)
        try:
            out = frozenset(self.definition_(d))
        finally:
            self.busy.discard(key)
        self.memo[key] = out
        return out

    def definition_(self, d):
        flow = d.scope
        func = self.func_of(flow)
        out = set()
        if d.kind == 'param':
            me = id(flow.node)
            return {('seq', ('param', me, d.name, 'seq')), ('val', ('param', me, d.name, 'val'))}
        if d.kind == 'func':
            return set()
        if d.kind in ('for', 'comp'):
            ms = self.through(func, flow, d.exprs[0])
            it = d.exprs[0]
            out = {m for m in ms if m[0] == 'val'}
            return out
        if d.kind == 'assign':
            for x in d.exprs:
                ms = self.marks(func, flow, x)
                out |= self.all_val(ms | self.unordered(x)) if d.path else ms
            # s = s + x, built up round by round
            if d.whole is not None and isinstance(d.whole, (ast.BinOp, ast.JoinedStr, ast.Call)) and self.enclosing_loops(flow, d.node):
                for x in ast.walk(d.whole):
                    if isinstance(x, ast.Name) and x.id == d.name and self.kinds(d.whole) & SEQ:
                        g = set()
                        for L in self.enclosing_loops(flow, d.node):
                            inside = set(ast.walk(L))
                            ds = flow.uses.get(x, ())
                            if all(o.node in inside and o is not d for o in self.origins(ds)):
                                continue
                            g |= {m for m in self.through(func, flow, L.iter) if m[0] == 'seq'}
                        out |= self.all_val(g) if 's' in self.kinds(d.whole) else g
            return out
        if d.kind == 'aug':
            for p in d.prev:
                out |= self.definition(p)
            for x in d.exprs:
                out |= self.marks(func, flow, x)
            k = set().union(*[self.kinds(x) for x in d.exprs] or [set()])
            if isinstance(d.node, ast.AugAssign) and isinstance(d.node.op, ast.Add) and k & SEQ:
                g = self.ordered_growth(d, d.name)
                out |= self.all_val(g) if 's' in k else g
            return out
        if d.kind == 'mut':
            for p in d.prev:
                out |= self.definition(p)
            for x in d.exprs:
                out |= self.all_val(self.marks(func, flow, x))
            n = d.node
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if n.func.attr in ('append', 'extend', 'insert', 'appendleft', 'extendleft'):
                    out |= self.ordered_growth(d, d.name)
                elif n.func.attr == 'sort':
                    key = next((k.value for k in n.keywords if k.arg == 'key'), None)
                    if key is None or self.injective_key(func, flow, key, n.func.value):
                        out = {m for m in out if m[0] == 'val'}
            return out
        for x in d.exprs:
            out |= self.marks(func, flow, x)
        return out

    # -------------------------------------------------------------- functions
    def summary(self, f):
        flow = self.w.flow(f)
        out = set()
        for v, ctl, node in flow.returns:
            if v is not None:
                out |= self.marks(f, flow, v)
        for v, ctl, node in flow.yields:
            g = set()
            for L in self.enclosing_loops(flow, node):
                g |= {m for m in self.through(f, flow, L.iter) if m[0] == 'seq'}
            if v is not None:
                ms = self.marks(f, flow, v)
                if isinstance(node, ast.YieldFrom):
                    out |= ms | self.unordered(v)
                else:
                    out |= self.all_val(ms)
            out |= g
        return frozenset(out)

    # ------------------------------------------------------------- sort keys
    def injective_key(self, func, flow, key, coll):
        pairs = isinstance(coll, ast.Call) and isinstance(coll.func, ast.Attribute) and coll.func.attr == 'items'
        if isinstance(coll, (ast.ListComp, ast.GeneratorExp)) and len(coll.generators) == 1:
            g = coll.generators[0]
            it = g.iter
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'items' and isinstance(g.target, ast.Tuple) \
                    and isinstance(coll.elt, ast.Tuple) and coll.elt.elts and ast.dump(coll.elt.elts[0]) == ast.dump(ast.Name(g.target.elts[0].id, ast.Load())
                                                                                                                     if isinstance(g.target.elts[0], ast.Name) else g.target):
                pairs = True
        if isinstance(key, ast.Lambda):
            return self.inj(key.body, key.args.args[0].arg if key.args.args else None, pairs)
        if isinstance(key, ast.Name) and key.id in ('str', 'repr', 'tuple', 'list'):
            return True
        g = None
        t = target(self.p, func, ast.Call(key, [], [])) if isinstance(key, (ast.Name, ast.Attribute)) else None
        g = t
        if g is not None and g.params():
            me = g.params()[-1] if g.kind in ('method', 'classmethod') and g.parent is None else g.params()[0]
            fl = self.w.flow(g)
            rets = [v for v, c, n in fl.returns]
            return bool(rets) and all(v is not None and self.inj(v, me, pairs, fl) for v in rets)
        return False

    def inj(self, e, p, pairs, flow=None):
        if isinstance(e, ast.Name):
            if e.id == p:
                return True
            if flow is not None:
                ds = flow.uses.get(e, ())
                if len(ds) == 1:
                    d = next(iter(ds))
                    if d.kind == 'assign' and d.whole is not None:
                        return self.inj(d.whole, p, pairs, flow)
            return False
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Slice):
                return e.slice.lower is None and e.slice.upper is None and self.inj(e.value, p, pairs, flow)
            return pairs and isinstance(e.value, ast.Name) and e.value.id == p and isinstance(e.slice, ast.Constant) and e.slice.value == 0
        if isinstance(e, (ast.Tuple, ast.List)):
            return any(self.inj(x, p, pairs, flow) for x in e.elts)
        if isinstance(e, ast.UnaryOp):
            return self.inj(e.operand, p, pairs, flow)
        if isinstance(e, ast.Attribute):
            return self.inj(e.value, p, pairs, flow) and self.identity(e)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            g = e.generators
            if len(g) == 1 and not g[0].ifs and self.inj(g[0].iter, p, pairs, flow) and isinstance(g[0].target, ast.Name):
                return self.inj(e.elt, g[0].target.id, False, flow)
            return False
        if isinstance(e, ast.Call):
            name = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else ''
            if isinstance(e.func, ast.Name) and name in ('tuple', 'list', 'sorted', 'str', 'repr', 'frozenset') and e.args and not e.keywords:
                return self.inj(e.args[0], p, pairs, flow)
            if isinstance(e.func, ast.Attribute) and name in ('items', 'serialize') and not e.args:
                return self.inj(e.func.value, p, pairs, flow)
        return False

    def identity(self, e):
        """an attribute its class's __hash__ uses"""
        ks = [kind_cls(k) for k in self.kinds(e.value)]
        for c in ks:
            cls = self.p.classes.get(c) if c else None
            h = cls.find('__hash__') if cls is not None else None
            if h is not None and any(isinstance(n, ast.Attribute) and n.attr == e.attr for n in ast.walk(h.node)):
                return True
        return False
