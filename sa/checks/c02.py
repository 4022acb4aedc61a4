"""C02: a remembered answer is stored and looked up under a key that determines it."""
import ast

from ..absint import kinds_of
from ..canon import bind_args, canon, definitions, target
from ..core import Finding
from ..flow import Exit, Slice, FUNCS
from ..program import Cls, walk_own
from ..rules import lazy_slots, method_root

STORE_CALLS = {'setdefault', 'append', 'extend', 'add', 'update', 'insert', '__setitem__'}
READ_CALLS = {'get', 'setdefault', '__getitem__', '__contains__', 'pop'}
INJECTIVE = {'tuple', 'frozenset', 'Partition.trim'}


class Site:
    """one store into a table: TABLE[key] = value"""

    def __init__(self, func, flow, table, key, values, node, stmt):
        self.func, self.flow, self.table, self.key, self.values, self.node, self.stmt = func, flow, table, key, values, node, stmt


def base_of(e):
    while isinstance(e, (ast.Subscript, ast.Call, ast.Attribute)):
        e = e.func if isinstance(e, ast.Call) else e.value
    return e


class Memo:
    def __init__(self, world):
        self.w = world
        self.p = world.program
        self.out = []
        self.sites = []       # Site
        self.reads = []       # (func, flow, table, key expr, node)
        self.tables = {}      # table id -> expression text
        self.uses = {}        # table id -> {(owner qual)}: decorator uses
        self.decorators = {}  # decorator function qual -> (site, table param, value param)
        self.components = 0
        self.leaves = 0

    # ---------------------------------------------------------------- tables
    def table_of(self, func, flow, e):
        """identity of a table expression, or None: module-level or class-level dict"""
        if isinstance(e, ast.Name):
            if definitions(flow, e):
                ds = definitions(flow, e)
                if len(ds) == 1:
                    d = next(iter(ds))
                    if d.kind == 'assign' and d.whole is not None and isinstance(d.whole, (ast.Name, ast.Attribute)):
                        return self.table_of(func, d.scope, d.whole)
                    if d.kind == 'param':
                        f = self.p.func_of_node.get(d.scope.node)
                        if f is not None:
                            dflt = f.defaults().get(d.name)
                            if isinstance(dflt, (ast.Dict, ast.Call)) and not getattr(dflt, 'keys', None):
                                return ('default', f.qual, d.name)
                            return ('param', f.qual, d.name)
                return None
            r = self.p.resolve_name(func.module, e.id)
            if isinstance(r, tuple) and r[0] == 'global':
                m = self.p.modules[r[1]]
                vals = m.assigns.get(r[2], [])
                if vals and all(self.is_table(v) for v in vals):
                    # A = B = {} shares one dict
                    return ('module', r[1], min(id(v) for v in vals))
            return None
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            c = None
            root = method_root(func)
            if root.cls is not None and root.params() and e.value.id == root.params()[0]:
                c = root.cls
            else:
                r = self.p.resolve_name(func.module, e.value.id)
                if isinstance(r, Cls):
                    c = r
                elif hasattr(r, 'assigns') and e.attr in r.assigns and all(self.is_table(v) for v in r.assigns[e.attr]):
                    return ('module', r.name, min(id(v) for v in r.assigns[e.attr]))
            if c is not None:
                for k in c.mro():
                    if e.attr in k.attrs and self.is_table(k.attrs[e.attr]):
                        return ('class', k.name, e.attr)
        return None

    @staticmethod
    def is_table(v):
        if isinstance(v, ast.Dict):
            return True
        return isinstance(v, ast.Call) and ast.unparse(v.func).split('.')[-1] in ('dict', 'defaultdict', 'OrderedDict', 'WeakKeyDictionary', 'WeakValueDictionary')

    # -------------------------------------------------------------- collect
    def collect(self):
        for f in self.p.funcs.values():
            flow = self.w.flow(f)
            stmts = {}
            for n in walk_own(f.node):
                if isinstance(n, ast.stmt):
                    for x in ast.walk(n):
                        stmts[x] = n
            for n in walk_own(f.node):
                self.look(f, flow, n, stmts.get(n))

    def look(self, f, flow, n, stmt):
        if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                if isinstance(t, ast.Subscript):
                    self.store(f, flow, t.value, t.slice, [n.value] if n.value is not None else [], n, stmt)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            a, base = n.func.attr, n.func.value
            if isinstance(base, ast.Name):
                # an entry taken out of a table and added to
                ds = definitions(flow, base)
                if len(ds) == 1 and a in STORE_CALLS:
                    d = next(iter(ds))
                    if d.kind == 'assign' and isinstance(d.whole, (ast.Subscript, ast.Call)):
                        base, flow = d.whole, d.scope
            if a in STORE_CALLS:
                if a in ('setdefault', '__setitem__') and len(n.args) == 2 and self.table_of(f, flow, base):
                    self.store(f, flow, base, n.args[0], [n.args[1]], n, stmt)
                elif a == 'update' and len(n.args) == 1 and isinstance(n.args[0], ast.Dict) and self.table_of(f, flow, base):
                    for k, v in zip(n.args[0].keys, n.args[0].values):
                        self.store(f, flow, base, k, [v], n, stmt)
                elif isinstance(base, ast.Subscript):
                    self.store(f, flow, base.value, base.slice, list(n.args), n, stmt)
                elif isinstance(base, ast.Call) and isinstance(base.func, ast.Attribute) and base.func.attr == 'setdefault' and base.args:
                    self.store(f, flow, base.func.value, base.args[0], list(n.args), n, stmt)
            if a in READ_CALLS and n.args:
                t = self.table_of(f, flow, base)
                if t:
                    self.reads.append((f, flow, t, n.args[0], n))
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
            t = self.table_of(f, flow, n.value)
            if t:
                self.reads.append((f, flow, t, n.slice, n))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            t = self.table_of(f, flow, n.comparators[0])
            if t:
                self.reads.append((f, flow, t, n.left, n))

    def store(self, f, flow, table, key, values, node, stmt):
        t = self.table_of(f, flow, table)
        if t:
            self.sites.append(Site(f, flow, t, key, values, node, stmt))

    # ------------------------------------------------------------ components
    def key_parts(self, func, flow, e, depth=0, sub=None):
        """canonical forms whose values the key spells out in full"""
        if depth > 20:
            return set()
        c = canon(flow, e, 0, sub)
        out = {c}
        nxt = lambda x, fl=flow: self.key_parts(func, fl, x, depth + 1, sub)
        if isinstance(e, ast.Name):
            for d in definitions(flow, e):
                if len(definitions(flow, e)) == 1 and d.kind == 'assign' and d.whole is not None:
                    out |= nxt(d.whole, d.scope)
        elif isinstance(e, (ast.Tuple, ast.List)):
            for x in e.elts:
                out |= nxt(x.value if isinstance(x, ast.Starred) else x)
        elif isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add) and (isinstance(e.left, ast.Tuple) or isinstance(e.right, ast.Tuple)):
            out |= nxt(e.left) | nxt(e.right)
        elif isinstance(e, ast.Call) and ast.unparse(e.func) in INJECTIVE and len(e.args) == 1 and not e.keywords:
            if ast.unparse(e.func) != 'frozenset' or self.unordered(e.args[0]):
                out |= nxt(e.args[0])
        elif isinstance(e, ast.Call):
            g = target(self.p, func, e)
            if g is not None and isinstance(g.node, FUNCS):
                body = [s for s in g.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not isinstance(s, ast.Assert)]
                args = bind_args(g, e)
                if len(body) == 1 and isinstance(body[0], ast.Return) and body[0].value is not None and args is not None:
                    gs = {k: canon(flow, v, 0, sub) for k, v in args.items()}
                    if g.kind == 'method' and isinstance(e.func, ast.Attribute):
                        gs[g.params()[0]] = canon(flow, e.func.value, 0, sub)
                    out |= self.key_parts(g, self.w.flow(g), body[0].value, depth + 1, gs)
        # an attribute that decides equality of its object stands for the object
        for x in list(out):
            if x[0] == 'attr' and x[2] in self.identity_attrs(func, x[1]):
                out.add(x[1])
        return out

    def unordered(self, e):
        """collapsing this into a set forgets nothing: it has no order or repeats to begin with"""
        ks = kinds_of(self.w.eng.types.get(e, ()))
        return bool(ks) and ks <= {'set', 'frozenset', 'dict', 'ddict', 'view'}

    def identity_attrs(self, func, c):
        """attributes of the receiver that its class's __hash__ is computed from alone"""
        root = method_root(func)
        if root.cls is None or c != ('param', root.params()[0] if root.params() else None, id(root.node)):
            return ()
        h = root.cls.find('__hash__')
        if h is None:
            return ()
        rets = [n.value for n in walk_own(h.node) if isinstance(n, ast.Return) and n.value is not None]
        if len(rets) == 1 and isinstance(rets[0], ast.Call) and ast.unparse(rets[0].func) == 'hash' and len(rets[0].args) == 1:
            a = rets[0].args[0]
            if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id == h.params()[0]:
                return (a.attr,)
        return ()

    # ------------------------------------------------------------- obligations
    def check_site(self, s, group):
        parts = self.key_parts(s.func, s.flow, s.key)
        parts = {x for x in parts if x[0] not in ('const', 'global')}
        self.components += len(parts)
        table = s.table

        def stop(flow, e):
            if isinstance(e, (ast.Name, ast.Attribute, ast.Call, ast.Subscript, ast.Tuple, ast.BinOp, ast.IfExp)):
                c = canon(flow, e)
                if c in parts:
                    return 'key'
                if isinstance(e, ast.Name) and c[0] == 'defs':
                    for x in parts:
                        if x[0] == 'defs' and x[1] == c[1] and c[2] <= x[2]:
                            return 'key'
                    # a closure sees every definition; the key the ones in force
                    if not flow.uses.get(e):
                        for x in parts:
                            if x[0] == 'defs' and x[1] == c[1] and x[2] <= c[2]:
                                return 'key'
                if isinstance(e, ast.Name) and self.table_of(s.func, flow, e) == table:
                    return 'table'
            if isinstance(e, ast.Name) and not flow.uses.get(e) and e.id not in flow.locals:
                # free variable of a closure: determined if what it holds when the key is made is
                for d in definitions(flow, e):
                    if d.kind == 'assign' and d.whole is not None and canon(d.scope, d.whole) in parts:
                        return 'key'
            return None

        inside = set()
        for n in ast.walk(s.func.node):
            if isinstance(n, (ast.For, ast.While, ast.AsyncFor)) and any(x is s.node for x in ast.walk(n)):
                inside.add(n)
        sl = Slice(s.flow, stop, True, inside)
        for v in s.values:
            sl.expr(s.flow, v)
        if len(group) > 1 and s.stmt is not None:
            for t in s.flow.control_of.get(s.stmt, ()):
                sl.expr(s.flow, t.test if isinstance(t, Exit) else t)
        bad = []
        for leaf, node in sorted(sl.leaves.items(), key=str):
            self.leaves += 1
            if leaf[0] != 'param':
                continue
            g = self.p.func_of_node.get(next((d.scope.node for ds in [0] for d in self.scope_defs(s, leaf)), None))
            if g is not None and self.is_cls(g, leaf[1]):
                continue
            bad.append((leaf[1], g))
        return bad, parts

    def scope_defs(self, s, leaf):
        fl = s.flow
        while fl is not None:
            if id(fl.node) == leaf[2]:
                return [d for d in fl.defs.get(leaf[1], ()) if d.kind == 'param'][:1]
            fl = fl.parent
        return []

    def is_cls(self, g, name):
        r = g
        while r is not None:
            if r.params() and r.params()[0] == name and (r.kind == 'classmethod' or 'classmethod' in r.decorators or r.kind == 'decorated'):
                return True
            r = None
        return False

    def decorator_site(self, s):
        """the store is in a wrapper made by a decorator, the table a parameter of the decorator around it"""
        g = s.func
        return s.table[0] == 'param' and g.parent is not None and s.table[1] != g.qual

    def run(self):
        self.collect()
        self.find_decorators()
        groups = {}
        for s in self.sites:
            if s.table[0] == 'param' and not self.decorator_site(s):
                continue      # a dict the caller handed in, not a table the library keeps
            groups.setdefault((s.table, s.func), []).append(s)
        self.groups = groups
        for (table, func), group in groups.items():
            deco = self.decorator_site(group[0])
            for s in group:
                bad, parts = self.check_site(s, group)
                names = []
                for name, g in bad:
                    if deco and g is not None and g is not s.func:
                        continue        # the function and the table the decorator was given
                    if self.lifted(s, parts, name, g):
                        continue
                    names.append(name)
                for name in names:
                    self.report('incomplete-key', s.func, s.node, 'the value stored depends on %s, which the key %s does not determine'
                                % (name, ast.unparse(s.key)), name)
            self.same_key(table, func, group)
        self.owners()
        self.lazy()
        return self.out

    def lifted(self, s, parts, name, g):
        """the store sits in a helper that is handed key and value: judge the call sites instead"""
        if g is not s.func:
            return False
        here = [x for x in parts if x[0] == 'param' and x[2] == id(s.func.node)]
        if not here:
            return False
        whole = canon(s.flow, s.key)
        if whole[0] != 'param' or not all(canon(s.flow, v)[0] == 'param' for v in s.values):
            return False
        calls = 0
        for f in self.p.funcs.values():
            fl = self.w.flow(f)
            for n in walk_own(f.node):
                if isinstance(n, ast.Call) and target(self.p, f, n) is s.func:
                    args = bind_args(s.func, n)
                    if args is None or whole[1] not in args:
                        return False
                    vals = [args.get(canon(s.flow, v)[1]) for v in s.values]
                    if any(v is None for v in vals):
                        return False
                    calls += 1
                    t = Site(f, fl, s.table, args[whole[1]], vals, n, None)
                    bad, _ = self.check_site(t, [t])
                    for nm, _g in bad:
                        self.report('incomplete-key', f, n, 'the value stored depends on %s, which the key %s does not determine'
                                    % (nm, ast.unparse(t.key)), nm)
        return calls > 0

    def report(self, rule, func, node, msg, detail):
        self.out.append(Finding(rule, func, node, msg, detail))

    def find_decorators(self):
        """tables handed to decorators that keep them"""
        self.deco_uses = {}
        for f in self.p.funcs.values():
            for d in getattr(f.node, 'decorator_list', []):
                if isinstance(d, ast.Call):
                    for a in list(d.args) + [k.value for k in d.keywords]:
                        r = None
                        if isinstance(a, ast.Name):
                            v = self.p.resolve_name(f.module, a.id)
                            if isinstance(v, tuple) and v[0] == 'global':
                                vals = self.p.modules[v[1]].assigns.get(v[2], [])
                                if vals and all(self.is_table(x) for x in vals):
                                    r = ('module', v[1], min(id(x) for x in vals))
                        elif isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name):
                            v = self.p.resolve_name(f.module, a.value.id)
                            if hasattr(v, 'assigns') and a.attr in v.assigns and all(self.is_table(x) for x in v.assigns[a.attr]):
                                r = ('module', v.name, min(id(x) for x in v.assigns[a.attr]))
                        if r:
                            self.deco_uses.setdefault(r, []).append((f, d, ast.unparse(a)))

    def same_key(self, table, func, group):
        keys = {canon(s.flow, s.key) for s in group}
        if self.decorator_site(group[0]):
            pass
        for f, flow, t, k, n in self.reads:
            if t != table or method_root(f) is not method_root(func):
                continue
            c = canon(flow, k)
            if c in keys:
                continue
            if f is not func and c[0] == 'defs':
                if any(x[0] == 'defs' and x[1] == c[1] for x in keys):
                    continue
            if any(n in list(ast.walk(v)) for s in group for v in s.values):
                continue
            self.report('key-mismatch', f, n, 'the table is asked for %s but filled under %s'
                        % (ast.unparse(k), ', '.join(sorted({ast.unparse(s.key) for s in group}))), ast.unparse(k))

    def owners(self):
        """no table answers two different questions"""
        by = {}
        for (table, func), group in self.groups.items():
            if table[0] != 'param':
                by.setdefault(table, []).append((method_root(func), group[0].node, group[0].key, group[0].flow))
        for table, uses in self.deco_uses.items():
            for f, d, text in uses:
                by.setdefault(table, []).append((f, d, None, None))
        self.ntables = len(by)
        for table, us in by.items():
            roots = {}
            for r, node, key, flow in us:
                roots.setdefault(r, (node, key, flow))
            if len(roots) > 1 and not self.told_apart(roots):
                rs = sorted(roots, key=lambda r: (r.module.file, r.node.lineno))
                for r in rs[1:]:
                    self.report('shared-table', r, roots[r][0], 'remembers its answers in the table of %s' % rs[0].qual, rs[0].qual)
        # a read of a table by a function that does not fill it
        fill = {t: {method_root(f) for (tt, f) in self.groups if tt == t} for t in by}

    def told_apart(self, roots):
        """every key carries a constant in the same place, all different"""
        forms = []
        for node, key, flow in roots.values():
            if key is None:
                return False
            c = canon(flow, key)
            if c[0] != 'tuple':
                return False
            forms.append(c[1:])
        n = min(len(c) for c in forms)
        for i in range(n):
            if all(c[i][0] == 'const' for c in forms) and len({c[i] for c in forms}) == len(forms):
                return True
        return False

    def lazy(self):
        """a lazily filled attribute is a function of its object alone"""
        slots = lazy_slots(self.p)
        self.nlazy = 0
        for f in self.p.funcs.values():
            root = method_root(f)
            if root.cls is None or root.name == '__init__' or root.kind not in ('method', 'property'):
                continue
            me = root.params()[0] if root.params() else None
            flow = self.w.flow(f)
            for n in walk_own(f.node):
                if not isinstance(n, ast.Assign):
                    continue
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me and \
                            any((c.name, t.attr) in slots for c in root.cls.mro()):
                        self.nlazy += 1
                        sl = Slice(flow)
                        sl.expr(flow, n.value)
                        for leaf, node in sorted(sl.leaves.items(), key=str):
                            if leaf[0] == 'param' and leaf[1] != me:
                                self.report('lazy-depends', f, n, 'self.%s is filled once but depends on the argument %s' % (t.attr, leaf[1]),
                                            '%s %s' % (t.attr, leaf[1]))


def check(world):
    m = Memo(world)
    out = m.run()
    stores = sum(len(g) for g in m.groups.values())
    cov = {'tables': m.ntables, 'hand_written_stores': stores, 'decorated_functions': sum(len(v) for v in m.deco_uses.values()),
           'key_components': m.components, 'value_inputs_checked': m.leaves, 'lookups_compared': len(m.reads), 'lazy_attribute_stores': m.nlazy}
    meta = {
        'explanation': 'Backward dependence (data and control, from reaching definitions) of every value stored in a long-lived table or '
                       'lazily filled attribute: each input it reaches must be spelled out by the key; lookups use the key of the store; '
                       'no table serves two functions.',
        'assumptions': ['classes are not subclassed in ways that change a memoised class method', 'library constants stay constant (C03)'],
    }
    return out, cov, meta
