"""Whole-program abstract interpretation of the library's syntax trees.

Values are sets of atoms carrying a structural type and, for heap objects, an
allocation site and an ownership region:

  'L'  local      allocated inside the running operation
  'E'  external   owned by the caller of a public operation (arguments, receiver)
  'C'  cached     obtained from a memo table
  'G'  global     a module-level container (the memo tables themselves)

Functions are analysed once per distinct tuple of abstract arguments (so a
helper is judged separately for every kind of argument its callers pass it),
to a global fixed point.  The analysis records events: mutation of an object in
region E, C or G, stores to attributes and globals, input/output, floating
point, unresolvable attributes, and so on.  Checkers interpret the events.
"""
import ast
import builtins as _b
from collections import deque, defaultdict
from .program import Program, Cls, Func, Module, AnalysisBroken, walk_own

INT = ('i',)
FLT = ('f',)
STR = ('s',)
NONE = ('n',)
TRUE = ('b', True)
FALSE = ('b', False)
UNK = ('any', 'U')
EXT = ('any', 'E')
ANYC = ('any', 'C')

def V(*atoms):
    return frozenset(atoms)

BOOL = V(TRUE, FALSE)
VI = V(INT)
VS = V(STR)
VN = V(NONE)
VU = V(UNK)
VE = V(EXT)
BOT = frozenset()

MUTATORS = {
    'list': {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', '__setitem__', '__delitem__', '__iadd__'},
    'set': {'add', 'discard', 'remove', 'pop', 'clear', 'update', 'difference_update', 'intersection_update', 'symmetric_difference_update', '__ior__', '__iand__', '__isub__', '__ixor__'},
    'dict': {'pop', 'popitem', 'clear', 'update', 'setdefault', '__setitem__', '__delitem__'},
    'deque': {'append', 'appendleft', 'extend', 'extendleft', 'pop', 'popleft', 'clear', 'remove', 'rotate', 'insert', 'reverse'},
}
ALL_MUTATORS = set().union(*MUTATORS.values())
READERS = {
    'list': {'index', 'count', 'copy', '__getitem__', '__len__', '__iter__', '__contains__'},
    'set': {'union', 'intersection', 'difference', 'symmetric_difference', 'issubset', 'issuperset', 'isdisjoint', 'copy', '__contains__', '__iter__', '__len__'},
    'dict': {'get', 'keys', 'values', 'items', 'copy', '__iter__', '__getitem__', '__len__', '__contains__', 'fromkeys'},
    'deque': {'index', 'count', 'copy'},
}
SEQ_KINDS = {'list', 'deque', 'gen', 'iter', 'view'}
BINOPS = {
    ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.Div: '__truediv__',
    ast.FloorDiv: '__floordiv__', ast.Mod: '__mod__', ast.Pow: '__pow__', ast.BitOr: '__or__',
    ast.BitAnd: '__and__', ast.BitXor: '__xor__', ast.LShift: '__lshift__', ast.RShift: '__rshift__',
    ast.MatMult: '__matmul__',
}
CMPOPS = {
    ast.Eq: '__eq__', ast.NotEq: '__ne__', ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__',
}
IO_BUILTINS = {'print', 'input', 'open', 'exec', 'eval', '__import__', 'breakpoint', 'exit', 'quit'}
TYPE_NAMES = {'int', 'str', 'float', 'bool', 'list', 'tuple', 'set', 'dict', 'frozenset', 'type', 'object', 'bytes', 'complex', 'slice'}
MAX_ATOMS = 40
DEPTH = 4
MAX_CTX = 8


def join(*vs):
    out = set()
    for v in vs:
        out |= v
    return norm(frozenset(out))


def norm(v):
    """Collapse: many tuple atoms -> one variable length tuple; any absorbs nothing but bounds size."""
    if UNK in v or EXT in v or ANYC in v:
        anys = {a[1] for a in v if a[0] == 'any'}
        out = set()
        for a in v:
            if a[0] in ('t', 't*'):
                anys |= {site_region(x) for x in objs(V(a))} & {'E', 'C'}
            elif a[0] != 'any' and not (a[0] == 'bm' and a[2][0] == 'any'):
                out.add(a)
        if len(anys) > 1:
            anys.discard('U')
        v = frozenset(out | {('any', r) for r in anys})
    tups = [a for a in v if a[0] in ('t', 't*')]
    if len(tups) > 4:
        lens = defaultdict(list)
        other = []
        for a in tups:
            if a[0] == 't' and len(a[1]) <= 6:
                lens[len(a[1])].append(a)
            else:
                other.append(a)
        new = []
        if len(lens) <= 3 and not other:
            for n, group in lens.items():
                new.append(('t', tuple(join(*[g[1][i] for g in group]) for i in range(n))))
        else:
            el = BOT
            for a in tups:
                el = join(el, tup_elem(a))
            new = [('t*', el)]
        v = frozenset([a for a in v if a[0] not in ('t', 't*')] + new)
    if len(v) > MAX_ATOMS:
        keep = [a for a in v if a[0] in ('i', 'f', 's', 'n', 'b')]
        region = 'U'
        for a in v:
            if a[0] == 'o':
                r = site_region(a[1])
                if r == 'E' or (r == 'C' and region == 'U'):
                    region = r
            elif a[0] == 'any' and a[1] == 'E':
                region = 'E'
        v = frozenset(keep + [('any', region)])
    return v


def depth(v):
    d = 0
    for a in v:
        if a[0] == 't':
            for x in a[1]:
                d = max(d, 1 + depth(x))
        elif a[0] == 't*':
            d = max(d, 1 + depth(a[1]))
        elif a[0] == 'M':
            d = max(d, 1 + depth(a[2]))
    return d


def limit(v, n=DEPTH):
    if depth(v) <= n:
        return v
    out = set()
    for a in v:
        if a[0] in ('t', 't*'):
            if n <= 0:
                out.add(UNK)
            elif a[0] == 't':
                out.add(('t', tuple(limit(x, n - 1) for x in a[1])))
            else:
                out.add(('t*', limit(a[1], n - 1)))
        else:
            out.add(a)
    return norm(frozenset(out))


def tup_elem(a):
    if a[0] == 't':
        return join(*a[1]) if a[1] else BOT
    return a[1]


def site_region(s):
    return s[0] if s[0] in ('E', 'C', 'G') else 'L'


def site_base(s):
    return s[1] if s[0] in ('E', 'C', 'G') else s


def site_kind(s):
    b = site_base(s)
    # ('L', node, kind) or ('T', kind, content)
    return b[1] if b[0] == 'T' else b[2]


def kinds_of(atoms):
    """short kind names of a set of abstract values"""
    return {site_kind(a[1]) if a[0] == 'o' else 't' if a[0] == 't*' else a[0] for a in atoms}


def kind_cls(kind):
    return kind[5:] if kind.startswith('inst:') else None


def retag(r, v):
    out = set()
    for a in v:
        if a[0] == 'o':
            s = a[1]
            if r == 'C' and s[0] == 'E':
                out.add(a)
            elif r == 'E' and s[0] in ('C', 'G'):
                out.add(a)
            elif s[0] == 'G':
                out.add(('o', (r, s[1])))
            else:
                out.add(('o', (r, site_base(s))))
        elif a[0] == 't':
            out.add(('t', tuple(retag(r, x) for x in a[1])))
        elif a[0] == 't*':
            out.add(('t*', retag(r, a[1])))
        elif a[0] == 'any':
            out.add(('any', 'E') if a[1] == 'E' or r == 'E' else ('any', 'C') if r == 'C' else a)
        else:
            out.add(a)
    return frozenset(out)


def objs(v, deep=True):
    for a in v:
        if a[0] == 'o':
            yield a[1]
        elif deep and a[0] == 't':
            for x in a[1]:
                for s in objs(x):
                    yield s
        elif deep and a[0] == 't*':
            for s in objs(a[1]):
                yield s


def T(kind, elem=BOT, key=BOT):
    """a pseudo object of the given kind with given content"""
    return ('o', ('T', kind, (('elem', elem), ('key', key))))


def Eo(kind, elem=BOT, key=BOT):
    return ('o', ('E', ('T', kind, (('elem', elem), ('key', key)))))


class Ctx:
    __slots__ = ('id', 'func', 'env', 'args', 'ret', 'caller', 'published', 'callees', 'queued', 'runs', 'ret_reads')

    def __hash__(self):
        return self.id

    def __init__(self, id, func, env, args):
        self.id = id
        self.func = func
        self.env = env
        self.args = args
        self.ret = BOT
        self.caller = None
        self.published = frozenset()
        self.callees = set()
        self.queued = False
        self.runs = 0


class Engine:
    def __init__(self, program, contracts, builder_classes=()):
        self.p = program
        self.contracts = contracts
        self.heap = {}
        self.by_base = defaultdict(list)
        self.heap_readers = defaultdict(set)
        self.ctxs = {}
        self.ctx_list = []
        self._callbacks = {}
        self.ret_readers = defaultdict(set)
        self.queue = deque()
        self.events = {}
        self.evaluated = set()
        self.types = {}
        self.mutation_sites = set()
        self.builder_classes = set(builder_classes)
        self.clsns = {}
        self.entry_roots = []
        self.nfresh = 0
        self.module_order = []
        self.entry_of = {}
        self.raised = {}
        self.max_runs = 60
        self.nctx = {}
        self.modular = set()
        self._marg = {}
        self.sensitive = self.closure_sensitive()

    def closure_sensitive(self):
        """functions used as decorators (and everything nested in them): their
        closures are kept apart per activation; all others share one environment"""
        names = set()
        for m in self.p.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    for d in n.decorator_list:
                        d = d.func if isinstance(d, ast.Call) else d
                        if isinstance(d, ast.Name):
                            names.add(d.id)
                        elif isinstance(d, ast.Attribute):
                            names.add(d.attr)
        out = set()
        for q, f in self.p.funcs.items():
            g = f
            while g is not None:
                if g.parent is None and g.name in names and g.cls is None:
                    out.add(q)
                g = g.parent
        return out

    # ---- heap -----------------------------------------------------------
    def hget(self, key, reader):
        if reader is not None:
            self.heap_readers[key].add(reader)
        return self.heap.get(key, BOT)

    def hput(self, key, v):
        old = self.heap.get(key, BOT)
        new = limit(join(old, v))
        if new != old:
            if key not in self.heap:
                self.by_base[key[0]].append(key)
            self.heap[key] = new
            for c in self.heap_readers[key]:
                self.enqueue(c)

    def content(self, s, field, reader):
        r, b = site_region(s), site_base(s)
        if b[0] == 'T' and b[1].startswith('inst:'):
            v = self.hget((('attr', b[1][5:]), field), reader)
        elif b[0] == 'T':
            v = dict(b[2]).get(field, BOT)
        else:
            v = self.hget((b, field), reader)
        if r in ('E', 'C'):
            return retag(r, v)
        if r == 'G':
            return retag('C', v)
        return v

    def fill(self, s, field, v):
        b = site_base(s)
        k = kind_cls(site_kind(s))
        if k is not None:
            self.hput((('attr', k), field), v)
        elif b[0] != 'T':
            self.hput((b, field), v)

    def enqueue(self, c):
        if not c.queued:
            c.queued = True
            self.queue.append(c)

    # ---- events ---------------------------------------------------------
    def event(self, kind, ctx, node, *detail):
        f = ctx.func
        key = (kind, f.qual if f else '<module>', getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)) + detail
        if key not in self.events:
            self.events[key] = (ctx, node)

    def callback_counts(self, f, p):
        """numbers of arguments f gives its parameter p, or None if p goes elsewhere too"""
        if (f.qual, p) not in self._callbacks:
            counts, calls, ok = set(), set(), True
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == p:
                    calls.add(n.func)
                    ok = ok and not n.keywords and not any(isinstance(x, ast.Starred) for x in n.args)
                    counts.add(len(n.args))
            for n in ast.walk(f.node):
                if isinstance(n, ast.Name) and n.id == p and n not in calls and not isinstance(n.ctx, ast.Load):
                    ok = False
                elif isinstance(n, ast.Try) or isinstance(n, ast.arg) and n.arg == p and n not in f.node.args.args:
                    ok = False
            self._callbacks[(f.qual, p)] = counts if ok else None
        return self._callbacks[(f.qual, p)]

    def chain(self, ctx):
        out = []
        seen = set()
        while ctx is not None and ctx.id not in seen:
            seen.add(ctx.id)
            out.append(ctx.func.qual)
            ctx = ctx.caller
        return out

    # ---- running --------------------------------------------------------
    def get_ctx(self, func, env, args, caller):
        key = (func.qual, env, args)
        c = self.ctxs.get(key)
        if c is None:
            c = Ctx(len(self.ctx_list), func, env, args)
            c.caller = caller
            self.ctxs[key] = c
            self.ctx_list.append(c)
            self.enqueue(c)
        return c

    def region_sig(self, v):
        out = set()
        for a in v:
            if a[0] == 'o':
                k = site_kind(a[1])
                out.add(site_region(a[1]) + (k[5:] if k.startswith('inst:') else ''))
            elif a[0] in ('t', 't*'):
                for x in (a[1] if a[0] == 't' else (a[1],)):
                    out |= {'(' + y for y in self.region_sig(x) if not y.startswith('(')}
            elif a[0] == 'any':
                out.add(a[1])
            elif a[0] in ('F', 'M'):
                out.add('fn')
        return frozenset(out)

    def call_ctx(self, func, env, bound, caller):
        """context for a call; after MAX_CTX distinct argument tuples further ones
        share one widened context per ownership signature"""
        args = tuple(sorted(bound.items()))
        key = (func.qual, env, args)
        c = self.ctxs.get(key)
        if c is not None:
            return c
        n = self.nctx.get((func.qual, env), 0)
        if n < MAX_CTX or (func.qual in self.sensitive and not func.node.args.vararg):
            self.nctx[(func.qual, env)] = n + 1
            return self.get_ctx(func, env, args, caller)
        wkey = (func.qual, env, 'W', tuple((k, self.region_sig(v)) for k, v in args))
        c = self.ctxs.get(wkey)
        if c is None:
            c = Ctx(len(self.ctx_list), func, env, args)
            c.caller = caller
            self.ctxs[wkey] = c
            self.ctx_list.append(c)
            self.enqueue(c)
            return c
        new = tuple((k, limit(join(v, w))) for (k, v), (_, w) in zip(c.args, args))
        if new != c.args:
            c.args = new
            self.enqueue(c)
        return c

    def modular_arg(self, f, p, defs):
        k = (f.qual, p)
        if k not in self._marg:
            v = self.contracts(f, p)
            if p in defs:
                d = defs[p]
                if isinstance(d, ast.Constant):
                    v = join(v, Interp(self, self.ctx_list[0]).ev(d, {})) if v != VE else v
                elif isinstance(d, ast.Tuple) and not d.elts and v != VE:
                    v = join(v, V(('t', ())))
            self._marg[k] = v
        return self._marg[k]

    def solve(self):
        n = 0
        while self.queue:
            c = self.queue.popleft()
            c.queued = False
            c.runs += 1
            n += 1
            if c.runs > self.max_runs:
                continue
            Interp(self, c).run()
        self.total_runs = n

    def run_modules(self):
        done = set()

        def visit(m):
            if m.name in done:
                return
            done.add(m.name)
            for imp in m.imports.values():
                t = self.p.modules.get(imp[1])
                if t is not None:
                    visit(t)
            self.module_order.append(m)
        for m in self.p.modules.values():
            visit(m)
        self.module_funcs = {}
        for m in self.module_order:
            node = ast.FunctionDef(name='<module>', args=ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]), body=m.tree.body, decorator_list=[], lineno=1, col_offset=0)
            f = Func(m.name + '.<module>', node, m, None, None)
            self.module_funcs[m.name] = f
            self.get_ctx(f, None, (), None)
        self.solve()

    def run_entries(self, entries=None):
        """entries: iterable of (description, callable V, args list, kwargs)"""
        node = ast.FunctionDef(name='<entry>', args=ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]), body=[], decorator_list=[], lineno=1, col_offset=0)
        anymod = next(iter(self.p.modules.values()))
        self.pending_entries = []
        for f, selfv, args in entries:
            root = Func('<caller of %s>' % f.qual, node, anymod, None, None)
            c = self.get_ctx(root, None, (), None)
            c.caller = None
            self.entry_roots.append((c, f, selfv, args))
        for c, f, selfv, args in self.entry_roots:
            it = Interp(self, c)
            it.call_value(selfv, args, {}, f.node)
        self.solve()
        for _ in range(2):
            for c, f, selfv, args in self.entry_roots:
                it = Interp(self, c)
                it.call_unknown(it.call_value(selfv, args, {}, f.node), f.node)
            self.solve()

    def locals_of(self, f):
        cache = self.__dict__.setdefault('_locals', {})
        if f.qual not in cache:
            it = Interp(self, Ctx(-3, f, None, ()))
            loc = it.collect_locals(f.node)
            cache[f.qual] = (loc, it.globals_decl, it.nonlocal_decl, it.captured_names(f.node), not isinstance(f.node, ast.Lambda) and f.is_generator())
        return cache[f.qual][0]


class Stop(Exception):
    pass


class Interp:
    """One abstract execution of one context."""

    def __init__(self, eng, ctx):
        self.e = eng
        self.c = ctx
        self.f = ctx.func
        self.m = ctx.func.module
        self.ret = BOT
        self.yields = BOT
        self.is_gen = False
        self.loops = []
        self.captured = None
        self.is_module = self.f.name == '<module>'
        self.globals_decl = set()
        self.nonlocal_decl = set()
        self.comp_depth = 0

    # -- set up ------------------------------------------------------------
    def run(self):
        f = self.f
        env = {}
        node = f.node
        if self.is_module:
            self.exec_block(node.body, env)
            return
        if f.name == '<entry>':
            for c, g, fv, args in self.e.entry_roots:
                if c is self.c:
                    self.call_value(fv, args, {}, g.node)
            return
        for k, v in self.c.args:
            env[k] = v
        self.locals = self.e.locals_of(f)
        _, self.globals_decl, self.nonlocal_decl, self.captured, self.gen_flag = self.e._locals[f.qual]
        for k, v in env.items():
            self.capture(k, v)
        if isinstance(node, ast.Lambda):
            self.ret = self.ev(node.body, env)
        else:
            self.is_gen = self.gen_flag
            out = self.exec_block(node.body, env)
            if out is not None and not self.is_gen:
                self.ret = join(self.ret, VN)
        if self.is_gen:
            s = ('L', ('gen', self.c.func.qual, self.c.id), 'gen')
            self.e.hput((s, 'elem'), self.yields)
            self.ret = V(('o', s))
        new = limit(join(self.c.ret, self.ret))
        if new != self.c.ret:
            self.c.ret = new
            for r in self.e.ret_readers[self.c.id]:
                self.e.enqueue(r)

    def collect_locals(self, node):
        out = set()
        args = node.args
        for a in args.posonlyargs + args.args + args.kwonlyargs:
            out.add(a.arg)
        if args.vararg:
            out.add(args.vararg.arg)
        if args.kwarg:
            out.add(args.kwarg.arg)
        if isinstance(node, ast.Lambda):
            return out
        comp_vars = set()
        for n in walk_own(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, ast.Global):
                self.globals_decl |= set(n.names)
            elif isinstance(n, ast.Nonlocal):
                self.nonlocal_decl |= set(n.names)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    out.add(a.asname or a.name.split('.')[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
        return out - self.globals_decl - self.nonlocal_decl

    def captured_names(self, node):
        out = set()
        for n in walk_own(node):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                for x in ast.walk(n):
                    if isinstance(x, ast.Name):
                        out.add(x.id)
                    elif isinstance(x, ast.Nonlocal):
                        out |= set(x.names)
        return out

    def capture(self, name, v):
        if self.captured and name in self.captured:
            self.e.hput((('cell', self.cell_id()), name), v)

    # -- statements ----------------------------------------------------------
    def exec_block(self, stmts, env):
        """returns resulting env, or None when the end is unreachable"""
        for s in stmts:
            if env is None:
                return None
            env = self.exec(s, env)
        return env

    def jenv(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        if a is b:
            return a
        out = {}
        for k in a.keys() | b.keys():
            if k in a and k in b:
                out[k] = a[k] if a[k] == b[k] else limit(join(a[k], b[k]))
            else:
                out[k] = a[k] if k in a else b[k]
        return out

    def exec(self, s, env):
        t = type(s)
        if t is ast.Expr:
            self.ev(s.value, env)
            return env
        if t is ast.Assign:
            v = self.ev(s.value, env)
            for tgt in s.targets:
                self.assign(tgt, v, env, s)
            return env
        if t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env, s)
            return env
        if t is ast.AugAssign:
            self.augassign(s, env)
            return env
        if t is ast.Return:
            v = self.ev(s.value, env) if s.value is not None else VN
            self.ret = limit(join(self.ret, v))
            return None
        if t is ast.If:
            tv = self.ev(s.test, env)
            self.truth(tv, s.test)
            can_t, can_f = self.may(tv)
            a = b = None
            if can_t:
                e1 = self.refine(s.test, dict(env), True)
                a = self.exec_block(s.body, e1) if e1 is not None else None
            if can_f:
                e2 = self.refine(s.test, dict(env), False)
                b = self.exec_block(s.orelse, e2) if e2 is not None else None
            return self.jenv(a, b)
        if t in (ast.For, ast.AsyncFor):
            it = self.ev(s.iter, env)
            el = self.iterate(it, s.iter, env)
            return self.loop(s, env, el)
        if t is ast.While:
            return self.loop(s, env, None)
        if t is ast.Break:
            if self.loops:
                self.loops[-1][0] = self.jenv(self.loops[-1][0], dict(env))
            return None
        if t is ast.Continue:
            if self.loops:
                self.loops[-1][1] = self.jenv(self.loops[-1][1], dict(env))
            return None
        if t is ast.Pass:
            return env
        if t is ast.Assert:
            tv = self.ev(s.test, env)
            e2 = self.refine(s.test, dict(env), True)
            if s.msg is not None:
                self.ev(s.msg, env)
            if not self.may(tv)[0]:
                return None
            return e2 if e2 is not None else None
        if t is ast.Raise:
            if s.exc is not None:
                self.ev(s.exc, env)
            return None
        if t is ast.FunctionDef:
            v = self.make_func(s)
            for d in reversed(s.decorator_list):
                dv = self.ev(d, env)
                v = self.apply_decorator(dv, v, d)
            self.bind(s.name, v, env)
            return env
        if t is ast.ClassDef:
            self.exec_class(s, env)
            return env
        if t in (ast.Import, ast.ImportFrom):
            self.exec_import(s, env)
            return env
        if t is ast.Try:
            before = dict(env)
            body = self.exec_block(s.body, dict(env))
            hand_env = self.jenv(before, body) if body is not None else self.partial_env(s.body, before)
            out = None
            if body is not None:
                out = self.exec_block(s.orelse, body)
            for h in s.handlers:
                he = dict(hand_env)
                if h.name:
                    he[h.name] = VU
                out = self.jenv(out, self.exec_block(h.body, he))
            if s.finalbody:
                fin = self.exec_block(s.finalbody, out if out is not None else dict(hand_env))
                return fin if out is not None else None
            return out
        if t is ast.With:
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env, s)
            return self.exec_block(s.body, env)
        if t is ast.Delete:
            for tgt in s.targets:
                if isinstance(tgt, ast.Subscript):
                    base = self.ev(tgt.value, env)
                    self.ev(tgt.slice, env) if not isinstance(tgt.slice, ast.Slice) else None
                    self.mutate(base, 'del [..]', s)
                elif isinstance(tgt, ast.Name):
                    env.pop(tgt.id, None)
                elif isinstance(tgt, ast.Attribute):
                    base = self.ev(tgt.value, env)
                    self.store_attr(base, tgt.attr, BOT, s)
            return env
        if t in (ast.Global, ast.Nonlocal):
            return env
        if t is ast.Match:
            sv = self.ev(s.subject, env)
            out = env
            for case in s.cases:
                e2 = dict(env)
                for x in ast.walk(case.pattern):
                    if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                        e2[x.name] = join(sv, VU)
                if case.guard is not None:
                    self.ev(case.guard, e2)
                out = self.jenv(out, self.exec_block(case.body, e2))
            return out
        raise AnalysisBroken('%s: statement kind %s is not modelled' % (self.f.loc(s), t.__name__))

    def partial_env(self, body, before):
        env = dict(before)
        cur = dict(before)
        saved = (self.ret, self.yields)
        for s in body:
            if cur is None:
                break
            cur = self.exec(s, cur)
            env = self.jenv(env, cur) if cur is not None else env
        self.ret, self.yields = join(saved[0], self.ret), join(saved[1], self.yields)
        return env

    def loop(self, s, env, el):
        cur = dict(env)
        self.loops.append([None, None])
        is_for = el is not None
        for _ in range(8):
            if is_for:
                body_env = dict(cur)
                if el == BOT:
                    body_env = None
                else:
                    self.assign(s.target, el, body_env, s)
            else:
                tv = self.ev(s.test, cur)
                if self.may(tv)[0]:
                    body_env = self.refine(s.test, dict(cur), True)
                else:
                    body_env = None
            self.loops[-1][1] = None
            end = self.exec_block(s.body, body_env) if body_env is not None else None
            end = self.jenv(end, self.loops[-1][1])
            new = self.jenv(cur, end)
            if new == cur:
                break
            cur = new
            if is_for:
                el = self.iterate(self.ev(s.iter, env), s.iter, env)
        brk = self.loops.pop()[0]
        if is_for:
            out = cur
        else:
            tv = self.ev(s.test, cur)
            out = self.refine(s.test, dict(cur), False) if self.may(tv)[1] else None
        if s.orelse and out is not None:
            out = self.exec_block(s.orelse, out)
        return self.jenv(out, brk)

    def exec_import(self, s, env):
        if isinstance(s, ast.Import):
            for a in s.names:
                name = a.asname or a.name.split('.')[0]
                v = V(('mod', a.name)) if a.name in self.e.p.modules else V(('ext', a.name))
                self.bind(name, v, env)
        else:
            for a in s.names:
                name = a.asname or a.name
                if s.module in self.e.p.modules:
                    v = self.module_attr(s.module, a.name)
                    self.bind(name, v, env)
                else:
                    self.bind(name, V(('ext', '%s.%s' % (s.module, a.name))), env)

    def module_attr(self, mod, name):
        return self.e.hget((('mod', mod), name), self.c)

    def bind(self, name, v, env):
        if self.is_module:
            self.e.hput((('mod', self.m.name), name), v)
            env[name] = v
            return
        if name in self.globals_decl:
            self.e.event('gwrite', self.c, self.f.node, name)
            self.e.hput((('mod', self.m.name), name), v)
            return
        if name in self.nonlocal_decl:
            cid = self.cell_ctx(name)
            if cid is not None:
                self.e.hput((('cell', cid), name), v)
            return
        env[name] = v
        self.capture(name, v)

    def exec_class(self, s, env):
        ns = {}
        c = self.e.p.classes.get(s.name)
        qual = s.name
        for b in s.bases:
            self.ev(b, env)
        sub = dict(env)
        for st in s.body:
            if isinstance(st, ast.FunctionDef):
                v = self.make_func(st)
                for d in reversed(st.decorator_list):
                    dv = self.ev(d, sub)
                    v = self.apply_decorator(dv, v, d)
                self.e.hput((('cls', qual), st.name), v)
                sub[st.name] = v
            elif isinstance(st, ast.Assign):
                v = self.ev(st.value, sub)
                for tg in st.targets:
                    if isinstance(tg, ast.Name):
                        self.e.hput((('cls', qual), tg.id), v)
                        sub[tg.id] = v
            elif isinstance(st, ast.Expr):
                self.ev(st.value, sub)
            elif isinstance(st, ast.Pass):
                pass
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if st.value is not None:
                    v = self.ev(st.value, sub)
                    self.e.hput((('cls', qual), st.target.id), v)
                    sub[st.target.id] = v
        self.bind(s.name, V(('K', qual)), env)

    def make_func(self, node):
        f = self.e.p.func_of_node.get(node)
        if f is None:
            f = self.e.p._func('%s.%s' % (self.f.qual, getattr(node, 'name', '<lambda>')), node, self.m, self.f.cls, self.f)
        env = None
        if not self.is_module and f.parent is not None:
            env = self.cell_id()
        # default values
        a = node.args
        for d in list(a.defaults) + [x for x in a.kw_defaults if x is not None]:
            pass
        return V(('F', f.qual, env))

    def apply_decorator(self, dv, fv, node):
        out = BOT
        for a in dv:
            if a == ('B', 'classmethod'):
                out = join(out, V(*[('cm', x) for x in fv]))
            elif a == ('B', 'staticmethod'):
                out = join(out, V(*[('sm', x) for x in fv]))
            elif a == ('B', 'property'):
                out = join(out, V(*[('prop', x) for x in fv]))
            elif a[0] == 'ext' and a[1] in ('functools.wraps',):
                out = join(out, fv)
            elif a[0] == 'ext':
                out = join(out, V(*[('wrapped', a[1], x) for x in fv]))
            else:
                out = join(out, self.call_value(V(a), [fv], {}, node))
        return out

    # -- assignment -------------------------------------------------------------
    def assign(self, tgt, v, env, node):
        if isinstance(tgt, ast.Name):
            self.bind(tgt.id, v, env)
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            n = len(tgt.elts)
            star = [i for i, x in enumerate(tgt.elts) if isinstance(x, ast.Starred)]
            parts = [BOT] * n
            for a in v:
                if a[0] == 't':
                    if star:
                        k = star[0]
                        rest = len(a[1]) - (n - 1)
                        if rest < 0:
                            continue
                        seq = list(a[1][:k]) + [V(('t', a[1][k:k + rest]))] + list(a[1][k + rest:])
                        for i in range(n):
                            parts[i] = join(parts[i], seq[i] if i != k else self.mklist(node, join(*a[1][k:k + rest]) if rest else BOT))
                    elif len(a[1]) == n:
                        for i in range(n):
                            parts[i] = join(parts[i], a[1][i])
                    else:
                        self.e.event('unpack', self.c, node, n, len(a[1]))
                else:
                    el = self.iterate(V(a), tgt, env)
                    for i in range(n):
                        if star and i == star[0]:
                            parts[i] = join(parts[i], self.mklist(node, el))
                        else:
                            parts[i] = join(parts[i], el)
            for x, pv in zip(tgt.elts, parts):
                self.assign(x.value if isinstance(x, ast.Starred) else x, pv, env, node)
        elif isinstance(tgt, ast.Subscript):
            base = self.ev(tgt.value, env)
            key = self.ev(tgt.slice, env) if not isinstance(tgt.slice, ast.Slice) else VI
            self.setitem(base, key, v, node, env, isinstance(tgt.slice, ast.Slice))
        elif isinstance(tgt, ast.Attribute):
            base = self.ev(tgt.value, env)
            self.store_attr(base, tgt.attr, v, node)
        elif isinstance(tgt, ast.Starred):
            self.assign(tgt.value, v, env, node)

    def setitem(self, base, key, v, node, env, is_slice=False):
        self.mutate(base, '[..] = ', node, v)
        for a in base:
            if a[0] == 'o':
                s = a[1]
                cls = kind_cls(site_kind(s))
                if cls is not None:
                    m = self.class_lookup(cls, '__setitem__')
                    if m:
                        self.call_attr(V(a), '__setitem__', [key, v], {}, node)
                        continue
                if is_slice:
                    self.e.fill(s, 'elem', self.iterate(v, node, env))
                else:
                    self.e.fill(s, 'elem', v)
                    if site_kind(s) in ('dict', 'ddict') or cls is not None:
                        self.e.fill(s, 'key', key)
                if s[0] == 'G':
                    self.publish(v, s, node, env)

    def publish(self, v, table, node, env):
        sites = frozenset(site_base(s) for s in objs(v) if site_region(s) == 'L')
        kinds = {site_kind(s) for s in objs(v)}
        for k in kinds & {'gen', 'iter', 'view'}:
            self.e.event('cache-lazy', self.c, node, str(table[1][1]), k)
        for s in objs(v):
            if site_region(s) == 'E':
                if site_kind(s) in ('list', 'set', 'dict', 'ddict', 'deque'):
                    self.e.event('cache-arg', self.c, node, str(table[1][1]), site_kind(s))
        self.mark_published(sites, env)

    def mark_published(self, sites, env):
        if not sites:
            return
        # everything reachable
        todo = list(sites)
        seen = set(sites)
        while todo:
            s = todo.pop()
            for key in list(self.e.by_base.get(s, ())):
                    for x in objs(self.e.heap[key]):
                        if site_region(x) == 'L' and site_base(x) not in seen:
                            seen.add(site_base(x))
                            todo.append(site_base(x))
        pub = frozenset(seen)
        if not pub <= self.c.published:
            self.c.published = self.c.published | pub
            for r in self.e.ret_readers[self.c.id]:
                self.e.enqueue(r)
        if env is not None:
            for k in list(env):
                nv = self.retag_sites(env[k], pub)
                if nv != env[k]:
                    env[k] = nv

    def retag_sites(self, v, sites):
        out = set()
        ch = False
        for a in v:
            if a[0] == 'o' and a[1] in sites:
                out.add(('o', ('C', a[1])))
                ch = True
            elif a[0] == 't':
                n = ('t', tuple(self.retag_sites(x, sites) for x in a[1]))
                ch = ch or n != a
                out.add(n)
            elif a[0] == 't*':
                n = ('t*', self.retag_sites(a[1], sites))
                ch = ch or n != a
                out.add(n)
            else:
                out.add(a)
        return frozenset(out) if ch else v

    def store_attr(self, base, attr, v, node):
        self.e.mutation_sites.add(node)
        for a in base:
            if a[0] == 'o':
                s = a[1]
                cls = kind_cls(site_kind(s))
                r = site_region(s)
                if cls is not None:
                    m = self.class_lookup(cls, attr)
                    if m and any(x[0] == 'prop' for x in m):
                        self.e.event('readonly', self.c, node, cls, attr)
                    self.e.hput((('attr', cls), attr), v)
                    for k in self.e.p.classes[cls].mro()[1:] if cls in self.e.p.classes else []:
                        self.e.hput((('attr', k.name), attr), v)
                if r != 'L':
                    self.e.event('setattr', self.c, node, r, cls or site_kind(s), attr)
            elif a[0] == 'K':
                self.e.event('gwrite', self.c, node, '%s.%s' % (a[1], attr))
                self.e.hput((('cls', a[1]), attr), v)
            elif a[0] == 'mod':
                self.e.event('gwrite', self.c, node, '%s.%s' % (a[1], attr))
                self.e.hput((('mod', a[1]), attr), v)
            elif a[0] == 'any' and a[1] in ('E', 'C'):
                self.e.event('setattr', self.c, node, a[1], '?', attr)

    def mutate(self, v, how, node, stored=None):
        self.e.mutation_sites.add(node)
        for a in v:
            if a[0] == 'o':
                r = site_region(a[1])
                if r != 'L' and kind_cls(site_kind(a[1])) is not None:
                    cls = kind_cls(site_kind(a[1]))
                    if self.class_lookup(cls, '__setitem__') or self.class_lookup(cls, '__delitem__'):
                        continue
                if r != 'L':
                    self.e.event('mut' + r, self.c, node, how, self.site_name(a[1]))
            elif a[0] == 'any' and a[1] in ('E', 'C'):
                self.e.event('mut' + a[1], self.c, node, how, '?')

    def site_name(self, s):
        b = site_base(s)
        if b[0] == 'T':
            return b[1]
        n = b[1]
        return '%s@%s' % (b[2], n[0] if isinstance(n, tuple) else n)

    def augassign(self, s, env):
        tgt = s.target
        load = ast.copy_location(ast.Name(id=tgt.id, ctx=ast.Load()), tgt) if isinstance(tgt, ast.Name) else None
        if isinstance(tgt, ast.Name):
            old = self.ev(load, env)
        elif isinstance(tgt, ast.Attribute):
            old = self.attr(self.ev(tgt.value, env), tgt.attr, tgt)
        else:
            base = self.ev(tgt.value, env)
            key = self.ev(tgt.slice, env) if not isinstance(tgt.slice, ast.Slice) else VI
            old = self.subscript(base, key, tgt, tgt.slice)
        rhs = self.ev(s.value, env)
        op = BINOPS[type(s.op)]
        iop = '__i' + op[2:]
        out = BOT
        rest = set()
        for a in old:
            if a[0] == 'o':
                k = site_kind(a[1])
                cls = kind_cls(k)
                if cls is not None and self.class_lookup(cls, iop):
                    out = join(out, self.call_attr(V(a), iop, [rhs], {}, s))
                    continue
                if (k == 'list' and op in ('__add__', '__mul__')) or (k == 'set' and op in ('__or__', '__and__', '__sub__', '__xor__')) or (k in ('dict', 'ddict') and op == '__or__') or (k == 'deque' and op == '__add__'):
                    self.mutate(V(a), op + '=', s)
                    if op in ('__add__', '__or__', '__xor__'):
                        self.e.fill(a[1], 'elem', self.iterate(rhs, s, env, quiet=True))
                        if k in ('dict', 'ddict'):
                            for b in rhs:
                                if b[0] == 'o':
                                    self.e.fill(a[1], 'elem', self.e.content(b[1], 'elem', self.c))
                                    self.e.fill(a[1], 'key', self.e.content(b[1], 'key', self.c))
                    out = join(out, V(a))
                    continue
            elif a[0] == 'any' and a[1] in ('E', 'C'):
                if any(b[0] == 'o' and site_kind(b[1]) in ('list', 'set') for b in rhs):
                    self.e.event('mut' + a[1], self.c, s, op + '=', '?')
            rest.add(a)
        if rest:
            out = join(out, self.binop(frozenset(rest), rhs, type(s.op), s))
        if isinstance(tgt, ast.Name):
            self.bind(tgt.id, out, env)
        elif isinstance(tgt, ast.Attribute):
            self.store_attr(self.ev(tgt.value, env), tgt.attr, out, s)
        else:
            self.setitem(base, key, out, s, env)

    # -- truth, refinement ---------------------------------------------------------
    def may(self, v):
        """(may be true, may be false)"""
        if not v:
            return (False, False)
        t = f = False
        for a in v:
            if a == NONE or a == FALSE:
                f = True
            elif a == TRUE or a[0] in ('F', 'K', 'B', 'M', 'mod', 'ext', 'bm'):
                t = True
            elif a[0] == 't':
                if a[1]:
                    t = True
                else:
                    f = True
            elif a[0] == 'o' and kind_cls(site_kind(a[1])) is not None and not self.class_lookup(kind_cls(site_kind(a[1])), '__bool__') and not self.class_lookup(kind_cls(site_kind(a[1])), '__len__') and not self.is_dictlike(kind_cls(site_kind(a[1]))):
                t = True
            elif a[0] == 'o' and site_kind(a[1]) in ('gen', 'iter'):
                t = True
            else:
                t = f = True
        return t, f

    def is_dictlike(self, cls):
        c = self.e.p.classes.get(cls)
        return c is not None and any('dict' in k.ext_bases for k in c.mro())

    def truth(self, v, node):
        if NONE in v:
            falsy = [a for a in v if a not in (NONE, FALSE, TRUE) and self.may(V(a))[1] and a[0] != 'any']
            if falsy:
                self.e.event('truth-none', self.c, node, ','.join(sorted({x[0] if x[0] != 'o' else site_kind(x[1]) for x in falsy})))
        for a in v:
            if a[0] == 'o':
                cls = kind_cls(site_kind(a[1]))
                if cls:
                    if self.class_lookup(cls, '__bool__'):
                        self.call_attr(V(a), '__bool__', [], {}, node)
                    elif self.class_lookup(cls, '__len__'):
                        self.call_attr(V(a), '__len__', [], {}, node)

    def refine(self, test, env, pos):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, env, not pos)
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And) == pos
            if conj:
                for x in test.values:
                    if env is None:
                        return None
                    env = self.refine(x, env, pos)
                return env
            # disjunction: join of refinements
            out = None
            cur = env
            for x in test.values:
                if cur is None:
                    break
                out = self.jenv(out, self.refine(x, dict(cur), pos))
                cur = self.refine(x, dict(cur), not pos)
            return out
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            l, op, r = test.left, test.ops[0], test.comparators[0]
            if isinstance(l, ast.NamedExpr):
                l = l.target
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and isinstance(r, ast.Constant) and r.value is None:
                want = pos == isinstance(op, (ast.Is, ast.Eq))
                return self.narrow(l, env, lambda a: (a == NONE or a[0] == 'any') if want else a != NONE)
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and isinstance(r, ast.Constant) and r.value in (True, False):
                want = pos == isinstance(op, (ast.Is, ast.Eq))
                c = TRUE if r.value else FALSE
                if isinstance(op, (ast.Is, ast.IsNot)):
                    return self.narrow(l, env, lambda a: (a == c or a[0] == 'any') if want else a != c)
            if isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == 'type' and len(l.args) == 1:
                kinds = self.type_set(r, env, isinstance(op, (ast.In, ast.NotIn)))
                if kinds is not None:
                    want = pos == isinstance(op, (ast.Eq, ast.Is, ast.In))
                    return self.narrow_type(l.args[0], env, kinds, want, exact=True)
            if isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(r, ast.Tuple) and not r.elts:
                want = pos == isinstance(op, ast.Eq)
                return self.narrow(l, env, (lambda a: a in (('t', ()),) or a[0] not in ('n', 'i', 's', 't')) if want else (lambda a: a != ('t', ())))
            return env
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == 'isinstance' and len(test.args) == 2:
            kinds = self.type_set(test.args[1], env, isinstance(test.args[1], ast.Tuple))
            if kinds is not None:
                return self.narrow_type(test.args[0], env, kinds, pos, exact=False)
            return env
        if isinstance(test, (ast.Name, ast.Attribute)):
            return self.narrow(test, env, lambda a: self.may(V(a))[0 if pos else 1])
        if isinstance(test, ast.NamedExpr):
            return self.narrow(test.target, env, lambda a: self.may(V(a))[0 if pos else 1])
        return env

    def narrow(self, expr, env, pred):
        if isinstance(expr, ast.Name) and expr.id in env:
            new = frozenset(a for a in env[expr.id] if pred(a))
            if not new and env[expr.id]:
                return None
            env[expr.id] = new
        return env

    def type_set(self, r, env, many):
        elts = r.elts if many and isinstance(r, (ast.List, ast.Tuple, ast.Set)) else [r]
        if many and not isinstance(r, (ast.List, ast.Tuple, ast.Set)):
            return None
        out = set()
        for x in elts:
            v = self.ev(x, env)
            for a in v:
                if a[0] == 'K':
                    out.add(('K', a[1]))
                elif a[0] == 'B':
                    out.add(('B', a[1]))
                else:
                    return None
            if not v:
                return None
        return out

    def atom_matches(self, a, kinds, exact):
        """True/False/None(unknown)"""
        if a[0] == 'any':
            return None
        for k in kinds:
            if k[0] == 'K':
                if a[0] == 'o':
                    c = kind_cls(site_kind(a[1]))
                    if c == k[1]:
                        return True
                    if not exact and c and c in self.e.p.classes and k[1] in [x.name for x in self.e.p.classes[c].mro()]:
                        return True
            else:
                n = k[1]
                if n == 'int' and (a[0] == 'i' or (a[0] == 'b' and not exact)):
                    return True
                if n == 'bool' and a[0] == 'b':
                    return True
                if n == 'str' and a[0] == 's':
                    return True
                if n == 'float' and a[0] == 'f':
                    return True
                if n == 'tuple' and a[0] in ('t', 't*'):
                    return True
                if n in ('list', 'set', 'dict') and a[0] == 'o' and site_kind(a[1]) in ((n, 'ddict') if n == 'dict' and not exact else (n,)):
                    return True
                if n == 'dict' and not exact and a[0] == 'o' and kind_cls(site_kind(a[1])) and self.is_dictlike(kind_cls(site_kind(a[1]))):
                    return True
        return False

    def from_kinds(self, kinds, region):
        out = set()
        for k in kinds:
            if k[0] == 'K':
                s = ('T', 'inst:' + k[1], ())
                out.add(('o', (region, s)) if region in ('E', 'C') else ('o', s))
            else:
                n = k[1]
                inner = V(('any', region))
                if n in ('int',):
                    out.add(INT)
                elif n == 'bool':
                    out |= BOOL
                elif n == 'str':
                    out.add(STR)
                elif n == 'float':
                    out.add(FLT)
                elif n == 'tuple':
                    out.add(('t*', inner))
                elif n in ('list', 'set', 'dict'):
                    s = ('T', n, (('elem', inner), ('key', inner)))
                    out.add(('o', (region, s)) if region in ('E', 'C') else ('o', s))
                else:
                    out.add(('any', region))
        return out

    def narrow_type(self, expr, env, kinds, want, exact):
        if not (isinstance(expr, ast.Name) and expr.id in env):
            return env
        out = set()
        for a in env[expr.id]:
            m = self.atom_matches(a, kinds, exact)
            if m is None:
                if want:
                    out |= self.from_kinds(kinds, a[1])
                else:
                    out.add(a)
            elif m == want:
                out.add(a)
        if not out and env[expr.id]:
            return None
        env[expr.id] = norm(frozenset(out))
        return env

    # -- expressions ---------------------------------------------------------------
    def ev(self, n, env):
        v = self.ev_(n, env)
        if v:
            self.e.evaluated.add(n)
            t = self.e.types.get(n)
            if t is None:
                t = self.e.types[n] = set()
            t.update(v)
        return v

    def fresh(self, node, kind, elem=BOT, key=BOT):
        s = ('L', (self.loc_id(node), ), kind)
        if self.is_module:
            s2 = ('G', s)
        else:
            s2 = s
        if elem:
            self.e.hput((s, 'elem'), elem)
        if key:
            self.e.hput((s, 'key'), key)
        return ('o', s2)

    def loc_id(self, node):
        if self.is_module:
            st = node
        return '%s:%s:%s:%s' % (self.m.name, self.f.qual, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))

    def mklist(self, node, el):
        return V(self.fresh(node, 'list', el))

    def ev_(self, n, env):
        t = type(n)
        if t is ast.Constant:
            x = n.value
            if x is None:
                return VN
            if x is True:
                return V(TRUE)
            if x is False:
                return V(FALSE)
            if isinstance(x, int):
                return VI
            if isinstance(x, float) or isinstance(x, complex):
                self.e.event('float', self.c, n, 'literal')
                return V(FLT)
            if isinstance(x, str):
                return VS
            return VU
        if t is ast.Name:
            return self.name(n, env)
        if t is ast.Tuple:
            if any(isinstance(x, ast.Starred) for x in n.elts):
                el = BOT
                for x in n.elts:
                    if isinstance(x, ast.Starred):
                        el = join(el, self.iterate(self.ev(x.value, env), x, env))
                    else:
                        el = join(el, self.ev(x, env))
                return limit(V(('t*', el)))
            return limit(V(('t', tuple(self.ev(x, env) for x in n.elts))))
        if t in (ast.List, ast.Set):
            el = BOT
            for x in n.elts:
                if isinstance(x, ast.Starred):
                    el = join(el, self.iterate(self.ev(x.value, env), x, env))
                else:
                    el = join(el, self.ev(x, env))
            if t is ast.Set:
                self.hash_all(el, n)
            return V(self.fresh(n, 'list' if t is ast.List else 'set', el))
        if t is ast.Dict:
            kv, vv = BOT, BOT
            for k, x in zip(n.keys, n.values):
                if k is None:
                    for a in self.ev(x, env):
                        if a[0] == 'o':
                            kv = join(kv, self.e.content(a[1], 'key', self.c))
                            vv = join(vv, self.e.content(a[1], 'elem', self.c))
                else:
                    kv = join(kv, self.ev(k, env))
                    vv = join(vv, self.ev(x, env))
            self.hash_all(kv, n)
            return V(self.fresh(n, 'dict', vv, kv))
        if t is ast.BinOp:
            return self.binop(self.ev(n.left, env), self.ev(n.right, env), type(n.op), n)
        if t is ast.UnaryOp:
            v = self.ev(n.operand, env)
            if isinstance(n.op, ast.Not):
                self.truth(v, n.operand)
                a, b = self.may(v)
                return V(*([FALSE] if a else []) + ([TRUE] if b else []))
            out = BOT
            for a in v:
                if a[0] == 'o' and kind_cls(site_kind(a[1])):
                    d = {ast.USub: '__neg__', ast.UAdd: '__pos__', ast.Invert: '__invert__'}[type(n.op)]
                    out = join(out, self.call_attr(V(a), d, [], {}, n))
                elif a[0] in ('i', 'b'):
                    out = join(out, VI)
                elif a[0] == 'f':
                    out = join(out, V(FLT))
                else:
                    out = join(out, VU)
            return out
        if t is ast.BoolOp:
            out = BOT
            cur = dict(env)
            for i, x in enumerate(n.values):
                if cur is None:
                    break
                v = self.ev(x, cur)
                last = i == len(n.values) - 1
                if not last:
                    self.truth(v, x)
                is_and = isinstance(n.op, ast.And)
                if last:
                    out = join(out, v)
                else:
                    out = join(out, frozenset(a for a in v if self.may(V(a))[1 if is_and else 0]))
                    if not self.may(v)[0 if is_and else 1]:
                        break
                    cur = self.refine(x, cur, is_and)
                self.sync_walrus(cur, env)
            return out
        if t is ast.Compare:
            vals = [self.ev(n.left, env)] + [self.ev(x, env) for x in n.comparators]
            out = BOT
            for i, op in enumerate(n.ops):
                out = join(out, self.compare(vals[i], vals[i + 1], op, n))
            if len(n.ops) > 1:
                out = join(out, V(FALSE))
            return out
        if t is ast.IfExp:
            tv = self.ev(n.test, env)
            self.truth(tv, n.test)
            a, b = self.may(tv)
            out = BOT
            if a:
                e1 = self.refine(n.test, dict(env), True)
                if e1 is not None:
                    out = join(out, self.ev(n.body, e1))
            if b:
                e2 = self.refine(n.test, dict(env), False)
                if e2 is not None:
                    out = join(out, self.ev(n.orelse, e2))
            return out
        if t is ast.Call:
            return self.call(n, env)
        if t is ast.Attribute:
            return self.attr(self.ev(n.value, env), n.attr, n)
        if t is ast.Subscript:
            base = self.ev(n.value, env)
            if isinstance(n.slice, ast.Slice):
                for x in (n.slice.lower, n.slice.upper, n.slice.step):
                    if x is not None:
                        self.ev(x, env)
                return self.slice(base, n)
            key = self.ev(n.slice, env)
            return self.subscript(base, key, n, n.slice)
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            return self.comp(n, env)
        if t is ast.Lambda:
            return self.make_func(n)
        if t is ast.JoinedStr:
            for x in n.values:
                if isinstance(x, ast.FormattedValue):
                    self.stringify(self.ev(x.value, env), n)
            return VS
        if t is ast.Starred:
            return self.ev(n.value, env)
        if t is ast.Yield:
            v = self.ev(n.value, env) if n.value is not None else VN
            self.yields = limit(join(self.yields, v))
            return VN
        if t is ast.YieldFrom:
            v = self.ev(n.value, env)
            self.yields = limit(join(self.yields, self.iterate(v, n, env)))
            return VN
        if t is ast.NamedExpr:
            v = self.ev(n.value, env)
            self.bind(n.target.id, v, env)
            return v
        if t is ast.Slice:
            return VU
        raise AnalysisBroken('%s: expression kind %s is not modelled' % (self.f.loc(n), t.__name__))

    def sync_walrus(self, cur, env):
        pass

    def cell_id(self):
        return self.c.id if self.f.qual in self.e.sensitive else self.f.qual

    def cell_ctx(self, name):
        """walk the closure chain for the defining activation"""
        f = self.f
        cid = self.c.env
        f = f.parent
        while f is not None and cid is not None:
            if name in self.e.locals_of(f):
                return cid
            f = f.parent
            if isinstance(cid, int):
                cid = self.e.ctx_list[cid].env
            else:
                cid = f.qual if f is not None else None
        return None

    def name(self, n, env):
        name = n.id
        if name in env:
            v = env[name]
            if self.captured and name in self.captured:
                cv = self.e.hget((('cell', self.cell_id()), name), self.c)
                # a nested function may rebind through nonlocal
                if any(name in g.node_nonlocals for g in getattr(self.f, 'nested', []) if hasattr(g, 'node_nonlocals')):
                    v = join(v, cv)
            return v
        if not self.is_module and name in getattr(self, 'locals', ()):
            # local but unbound on this path
            return BOT
        if not self.is_module:
            cid = self.cell_ctx(name)
            if cid is not None:
                return self.e.hget((('cell', cid), name), self.c)
        m = self.m
        if name in m.classes or name in m.funcs or name in m.imports or name in m.assigns or ((('mod', m.name), name) in self.e.heap):
            return self.module_attr(m.name, name)
        if name == '__name__':
            return VS
        if hasattr(_b, name):
            return V(('B', name))
        self.e.event('undefined-name', self.c, n, name)
        return VU

    def comp(self, n, env):
        sub = dict(env)
        self.comp_depth += 1
        for g in n.generators:
            it = self.ev(g.iter, sub)
            el = self.iterate(it, g.iter, sub)
            self.assign(g.target, el, sub, n)
            for cond in g.ifs:
                cv = self.ev(cond, sub)
                self.truth(cv, cond)
                if sub is not None:
                    r = self.refine(cond, dict(sub), True)
                    if r is None or not self.may(cv)[0]:
                        # element expression unreachable (for now)
                        self.comp_depth -= 1
                        return self.comp_result(n, BOT, BOT)
                    sub = r
        if isinstance(n, ast.DictComp):
            k = self.ev(n.key, sub)
            v = self.ev(n.value, sub)
        else:
            k, v = BOT, self.ev(n.elt, sub)
        self.comp_depth -= 1
        if isinstance(n, ast.SetComp):
            self.hash_all(v, n)
        if isinstance(n, ast.DictComp):
            self.hash_all(k, n)
        return self.comp_result(n, v, k)

    def comp_result(self, n, v, k):
        kind = {ast.ListComp: 'list', ast.SetComp: 'set', ast.GeneratorExp: 'gen', ast.DictComp: 'dict'}[type(n)]
        return V(self.fresh(n, kind, v, k))

    # -- operations ------------------------------------------------------------
    def iterate(self, v, node, env, quiet=False):
        out = BOT
        for a in v:
            if a[0] in ('t', 't*'):
                out = join(out, tup_elem(a))
            elif a[0] == 'o':
                s = a[1]
                k = site_kind(s)
                cls = kind_cls(k)
                if k in ('dict', 'ddict'):
                    out = join(out, self.e.content(s, 'key', self.c))
                elif cls is not None:
                    if self.class_lookup(cls, '__iter__'):
                        out = join(out, self.iterate(self.call_attr(V(a), '__iter__', [], {}, node), node, env))
                    elif self.is_dictlike(cls):
                        out = join(out, self.e.content(s, 'key', self.c))
                    elif not quiet:
                        self.e.event('not-iterable', self.c, node, cls)
                else:
                    out = join(out, self.e.content(s, 'elem', self.c))
            elif a[0] == 's':
                out = join(out, VS)
            elif a[0] == 'any':
                out = join(out, V(a))
            elif a[0] in ('i', 'n', 'f', 'b'):
                if not quiet and a[0] != 'n':
                    self.e.event('not-iterable', self.c, node, {'i': 'int', 'f': 'float', 'b': 'bool'}[a[0]])
            elif a[0] in ('B', 'ext', 'K', 'F', 'M'):
                out = join(out, VU)
            else:
                out = join(out, VU)
        return out

    def hash_all(self, v, node):
        for a in v:
            if a[0] == 'o':
                cls = kind_cls(site_kind(a[1]))
                if cls and self.class_lookup(cls, '__hash__'):
                    self.call_attr(V(a), '__hash__', [], {}, node)
            elif a[0] == 't':
                for x in a[1]:
                    self.hash_all(x, node)
            elif a[0] == 't*':
                self.hash_all(a[1], node)

    def stringify(self, v, node):
        for a in v:
            if a[0] == 'o':
                s = a[1]
                cls = kind_cls(site_kind(s))
                if cls:
                    for d in ('__str__', '__repr__'):
                        if self.class_lookup(cls, d):
                            self.call_attr(V(a), d, [], {}, node)
                            break
                elif self.e.c_depth_ok(s) if hasattr(self.e, 'c_depth_ok') else True:
                    el = self.e.content(s, 'elem', self.c)
                    if any(x[0] == 'o' and kind_cls(site_kind(x[1])) for x in el):
                        self.stringify(frozenset(x for x in el if x[0] == 'o' and kind_cls(site_kind(x[1]))), node)
            elif a[0] == 't':
                for x in a[1]:
                    self.stringify(x, node)
        return VS

    def subscript(self, base, key, node, slice_node):
        out = BOT
        idx = None
        if isinstance(slice_node, ast.Constant) and isinstance(slice_node.value, int):
            idx = slice_node.value
        elif isinstance(slice_node, ast.UnaryOp) and isinstance(slice_node.op, ast.USub) and isinstance(slice_node.operand, ast.Constant) and isinstance(slice_node.operand.value, int):
            idx = -slice_node.operand.value
        for a in base:
            if a[0] == 't':
                if idx is not None:
                    if -len(a[1]) <= idx < len(a[1]):
                        out = join(out, a[1][idx])
                else:
                    out = join(out, tup_elem(a))
            elif a[0] == 't*':
                out = join(out, a[1])
            elif a[0] == 's':
                out = join(out, VS)
            elif a[0] == 'o':
                s = a[1]
                k = site_kind(s)
                cls = kind_cls(k)
                if cls is not None:
                    if self.class_lookup(cls, '__getitem__'):
                        out = join(out, self.call_attr(V(a), '__getitem__', [key], {}, node))
                    elif self.is_dictlike(cls):
                        out = join(out, self.e.content(s, 'elem', self.c))
                    else:
                        self.e.event('not-subscriptable', self.c, node, cls)
                elif k in ('set', 'gen', 'iter', 'view'):
                    self.e.event('not-subscriptable', self.c, node, k)
                else:
                    out = join(out, self.e.content(s, 'elem', self.c))
                    if k == 'ddict':
                        # a missing key inserts the default into the container
                        d = self.e.content(s, 'default', self.c)
                        out = join(out, d)
                        if s[0] == 'G':
                            self.e.event('ddict-touch', self.c, node, self.site_name(s))
                        if d:
                            self.e.fill(s, 'elem', d)
                            self.e.fill(s, 'key', key)
            elif a[0] == 'any':
                out = join(out, V(a))
            elif a[0] in ('i', 'f', 'b'):
                self.e.event('not-subscriptable', self.c, node, 'number')
            elif a[0] == 'n':
                self.e.event('none-subscript', self.c, node)
            else:
                out = join(out, VU)
        return out

    def slice(self, base, node):
        out = BOT
        for a in base:
            if a[0] in ('t', 't*'):
                out = join(out, V(('t*', tup_elem(a))))
            elif a[0] == 's':
                out = join(out, VS)
            elif a[0] == 'o':
                k = site_kind(a[1])
                if k == 'list':
                    out = join(out, self.mklist(node, self.e.content(a[1], 'elem', self.c)))
                else:
                    self.e.event('not-subscriptable', self.c, node, k)
            elif a[0] == 'any':
                out = join(out, V(a))
        return out

    def binop(self, l, r, op, node):
        name = BINOPS[op]
        rname = '__r' + name[2:]
        out = BOT
        for a in l:
            acls = kind_cls(site_kind(a[1])) if a[0] == 'o' else None
            if acls is not None:
                if self.class_lookup(acls, name):
                    out = join(out, self.call_attr(V(a), name, [r], {}, node))
                    continue
                handled = False
                for b in r:
                    bcls = kind_cls(site_kind(b[1])) if b[0] == 'o' else None
                    if bcls and self.class_lookup(bcls, rname):
                        out = join(out, self.call_attr(V(b), rname, [V(a)], {}, node))
                        handled = True
                if not handled:
                    if not any(b[0] == 'any' for b in r) and r:
                        self.e.event('no-operator', self.c, node, acls, name)
                    out = join(out, VU)
                continue
            for b in r:
                bcls = kind_cls(site_kind(b[1])) if b[0] == 'o' else None
                if bcls is not None:
                    if self.class_lookup(bcls, rname):
                        out = join(out, self.call_attr(V(b), rname, [V(a)], {}, node))
                    else:
                        if a[0] in ('i', 'b', 'f', 's', 't', 't*'):
                            if not (a[0] == 's' and op is ast.Mod):
                                self.e.event('no-operator', self.c, node, bcls, rname)
                            else:
                                self.stringify(V(b), node)
                                out = join(out, VS)
                                continue
                        out = join(out, VU)
                    continue
                out = join(out, self.prim_binop(a, b, op, node))
        if op is ast.Mod and any(a[0] == 's' for a in l):
            self.stringify(r, node)
        return limit(out)

    def prim_binop(self, a, b, op, node):
        num = ('i', 'b', 'f')
        if a[0] in num and b[0] in num:
            if a[0] == 'f' or b[0] == 'f' or op is ast.Div:
                if op is ast.Div and a[0] != 'f' and b[0] != 'f':
                    self.e.event('float', self.c, node, 'int / int')
                return V(FLT)
            if op in (ast.BitOr, ast.BitAnd, ast.BitXor) and a[0] == 'b' and b[0] == 'b':
                return BOOL
            return VI
        if a[0] == 's':
            if op in (ast.Mod, ast.Add, ast.Mult):
                return VS
        if b[0] == 's' and op is ast.Mult:
            return VS
        if a[0] in ('t', 't*') and b[0] in ('t', 't*') and op is ast.Add:
            if a[0] == 't' and b[0] == 't' and len(a[1]) + len(b[1]) <= 6:
                return V(('t', a[1] + b[1]))
            return V(('t*', join(tup_elem(a), tup_elem(b))))
        if op is ast.Mult and ((a[0] in ('t', 't*') and b[0] in ('i', 'b')) or (b[0] in ('t', 't*') and a[0] in ('i', 'b'))):
            x = a if a[0] in ('t', 't*') else b
            return V(('t*', tup_elem(x)), ('t', ()))
        if a[0] == 'o' and b[0] == 'o':
            ka, kb = site_kind(a[1]), site_kind(b[1])
            if op is ast.Add and ka == 'list' and kb == 'list':
                return self.mklist(node, join(self.e.content(a[1], 'elem', self.c), self.e.content(b[1], 'elem', self.c)))
            if op in (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor):
                if ka in ('set', 'view') and kb in ('set', 'view'):
                    el = self.e.content(a[1], 'elem', self.c)
                    if op in (ast.BitOr, ast.BitXor):
                        el = join(el, self.e.content(b[1], 'elem', self.c))
                    return V(self.fresh(node, 'set', el))
                if ka in ('dict', 'ddict') and kb in ('dict', 'ddict') and op is ast.BitOr:
                    return V(self.fresh(node, 'dict', join(self.e.content(a[1], 'elem', self.c), self.e.content(b[1], 'elem', self.c)), join(self.e.content(a[1], 'key', self.c), self.e.content(b[1], 'key', self.c))))
        if op is ast.Mult and a[0] == 'o' and site_kind(a[1]) == 'list' and b[0] in ('i', 'b'):
            return self.mklist(node, self.e.content(a[1], 'elem', self.c))
        if op is ast.Mult and b[0] == 'o' and site_kind(b[1]) == 'list' and a[0] in ('i', 'b'):
            return self.mklist(node, self.e.content(b[1], 'elem', self.c))
        if a[0] == 'any' or b[0] == 'any':
            if op is ast.Div:
                self.e.event('float', self.c, node, 'unknown / unknown')
            other = b if a[0] == 'any' else a
            if a[0] == 'any' and b[0] == 'any':
                return VU
            if other[0] == 't' or other[0] == 't*':
                return V(('t*', join(tup_elem(other), VU)))
            if other[0] == 'o' and site_kind(other[1]) in ('list', 'set'):
                return V(self.fresh(node, site_kind(other[1]), join(self.e.content(other[1], 'elem', self.c), VU)))
            if other[0] == 's':
                return VS
            return VU
        if a[0] == 'n' or b[0] == 'n':
            self.e.event('none-arith', self.c, node)
            return BOT
        if a[0] in ('ext', 'B', 'F') or b[0] in ('ext', 'B', 'F'):
            return VU
        self.e.event('bad-operands', self.c, node, self.atom_name(a), BINOPS[op], self.atom_name(b))
        return BOT

    def atom_name(self, a):
        if a[0] == 'o':
            return site_kind(a[1])
        return {'i': 'int', 's': 'str', 't': 'tuple', 't*': 'tuple', 'n': 'None', 'b': 'bool', 'f': 'float'}.get(a[0], a[0])

    def compare(self, l, r, op, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if l == VN and r == VN:
                return V(TRUE if isinstance(op, ast.Is) else FALSE)
            if r == VN and NONE not in l and l and not any(a[0] == 'any' for a in l):
                return V(FALSE if isinstance(op, ast.Is) else TRUE)
            return BOOL
        if isinstance(op, (ast.In, ast.NotIn)):
            for b in r:
                cls = kind_cls(site_kind(b[1])) if b[0] == 'o' else None
                if cls and self.class_lookup(cls, '__contains__'):
                    self.call_attr(V(b), '__contains__', [l], {}, node)
            self.hash_all(l, node)
            for a in l:
                cls = kind_cls(site_kind(a[1])) if a[0] == 'o' else None
                if cls and self.class_lookup(cls, '__eq__'):
                    self.call_attr(V(a), '__eq__', [V(a)], {}, node)
            return BOOL
        name = CMPOPS[type(op)]
        # constant comparison of booleans
        for a in l:
            cls = kind_cls(site_kind(a[1])) if a[0] == 'o' else None
            if cls and self.class_lookup(cls, name):
                self.call_attr(V(a), name, [r], {}, node)
            elif cls is None:
                for b in r:
                    bc = kind_cls(site_kind(b[1])) if b[0] == 'o' else None
                    if bc:
                        refl = {'__lt__': '__gt__', '__gt__': '__lt__', '__le__': '__ge__', '__ge__': '__le__'}.get(name, name)
                        if self.class_lookup(bc, refl):
                            self.call_attr(V(b), refl, [V(a)], {}, node)
            elif cls and name == '__ne__' and self.class_lookup(cls, '__eq__'):
                self.call_attr(V(a), '__eq__', [r], {}, node)
        # statically known comparison of type objects
        if isinstance(op, (ast.Eq, ast.NotEq)) and l and r and all(a[0] in ('K', 'B') for a in l | r):
            eqp = bool(l & r)
            nep = len(l) > 1 or len(r) > 1 or l != r
            if isinstance(op, ast.NotEq):
                eqp, nep = nep, eqp
            return V(*([TRUE] if eqp else []) + ([FALSE] if nep else []))
        return BOOL

    # -- attribute access ---------------------------------------------------------
    def class_lookup(self, cls, name):
        """V of the raw namespace entry along the mro, or BOT"""
        c = self.e.p.classes.get(cls)
        if c is None:
            return BOT
        for k in c.mro():
            key = (('cls', k.name), name)
            if key in self.e.heap:
                return self.e.hget(key, self.c)
            if name in k.methods or name in k.attrs:
                self.e.heap_readers[key].add(self.c)
                return BOT
        return BOT

    def attr(self, base, name, node):
        out = BOT
        for a in base:
            out = join(out, self.attr1(a, name, node))
        return out

    def bind_raw(self, raw, selfv, clsv, node):
        out = BOT
        for x in raw:
            if x[0] == 'F':
                out = join(out, V(('M', x, selfv)) if selfv is not None else V(x))
            elif x[0] == 'cm':
                out = join(out, V(('M', x[1], clsv)))
            elif x[0] == 'sm':
                out = join(out, V(x[1]))
            elif x[0] == 'prop':
                if selfv is None:
                    out = join(out, VU)
                else:
                    out = join(out, self.call_value(V(x[1]), [selfv], {}, node))
            else:
                out = join(out, V(x))
        return out

    def attr1(self, a, name, node):
        if a[0] == 'o':
            s = a[1]
            kind = site_kind(s)
            cls = kind_cls(kind)
            if cls is None:
                base = 'dict' if kind == 'ddict' else kind
                if base in ('gen', 'iter', 'view'):
                    return V(('bm', name, a))
                if name not in MUTATORS.get(base, set()) | READERS.get(base, set()) and not name.startswith('__'):
                    self.e.event('no-attribute', self.c, node, base, name)
                    return BOT
                return V(('bm', name, a))
            if name == '__class__':
                return V(('K', cls))
            raw = self.class_lookup(cls, name)
            region = site_region(s)
            b = site_base(s)
            inst = BOT
            if not any(x[0] == 'prop' for x in raw):
                inst = self.e.hget((('attr', cls), name), self.c)
                inst = retag(region, inst) if region in ('E', 'C') else retag('C', inst) if region == 'G' else inst
            if raw:
                out = self.bind_raw(raw, V(a), V(('K', cls)), node)
                return join(out, inst)
            if inst:
                return inst
            if self.is_dictlike(cls):
                if name in MUTATORS['dict'] | READERS['dict']:
                    return V(('bm', name, a))
            c = self.e.p.classes.get(cls)
            if c is not None and not self.known_attr(c, name):
                self.e.event('no-attribute', self.c, node, cls, name)
                return BOT
            return BOT
        if a[0] == 'K':
            if name == '__name__':
                return VS
            if name == '__new__' or name == '__init__':
                raw = self.class_lookup(a[1], name)
                return V(*[x for x in raw]) if raw else VU
            raw = self.class_lookup(a[1], name)
            if raw:
                return self.bind_raw(raw, None, V(a), node)
            c = self.e.p.classes.get(a[1])
            if c is not None and c.find(name) is None and not any(name in k.attrs for k in c.mro()):
                self.e.event('no-attribute', self.c, node, a[1], name)
            return BOT
        if a[0] == 'mod':
            m = self.e.p.modules[a[1]]
            v = self.module_attr(a[1], name)
            return v
        if a[0] == 'ext':
            return V(('ext', a[1] + '.' + name))
        if a[0] in ('s',):
            if not hasattr(str, name):
                self.e.event('no-attribute', self.c, node, 'str', name)
            return V(('bm', name, a))
        if a[0] in ('t', 't*'):
            if not hasattr(tuple, name):
                self.e.event('no-attribute', self.c, node, 'tuple', name)
                return BOT
            return V(('bm', name, a))
        if a[0] in ('i', 'b'):
            if not hasattr(int, name):
                self.e.event('no-attribute', self.c, node, 'int', name)
                return BOT
            return V(('bm', name, a))
        if a[0] == 'f':
            return V(('bm', name, a))
        if a[0] == 'n':
            if not hasattr(None, name):
                self.e.event('none-attribute', self.c, node, name)
            return BOT
        if a[0] == 'any':
            if name == '__class__':
                return VU
            owners = self.method_owners(name)
            fieldowners = [c for c in self.e.p.classes.values() if (('attr', c.name), name) in self.e.heap]
            if len(owners) == 1 and name not in ALL_MUTATORS and name not in set().union(*READERS.values()):
                c = owners[0]
                region = a[1]
                s = ('T', 'inst:' + c.name, ())
                at = ('o', (region, s)) if region in ('E', 'C') else ('o', s)
                return self.attr1(at, name, node)
            return V(('bm', name, a))
        if a[0] in ('F', 'M', 'bm', 'B'):
            return VS if name in ('__name__', '__doc__') else VU
        return VU

    def method_owners(self, name):
        cache = self.e.__dict__.setdefault('_owners', {})
        if name not in cache:
            out = []
            for c in self.e.p.classes.values():
                if name in c.methods:
                    if not any(o in c.mro() for o in out):
                        out = [o for o in out if c not in o.mro()]
                        out.append(c)
            cache[name] = out
        return cache[name]

    def known_attr(self, c, name):
        for k in c.mro():
            if name in k.methods or name in k.attrs:
                return True
        cache = self.e.__dict__.setdefault('_known_attrs', {})
        if c.name not in cache:
            s = set()
            for k in self.e.p.classes.values():
                if k in c.mro() or c in k.mro():
                    for n in ast.walk(k.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                            s.add(n.attr)
            # stores from outside the class: x.attr = ...
            if '_outside' not in self.e.__dict__:
                self.e._outside = {n.attr for m in self.e.p.modules.values() for n in ast.walk(m.tree) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == 'self')}
            s |= self.e._outside
            cache[c.name] = s
        if name in cache[c.name]:
            return True
        if name.startswith('__') and name.endswith('__') and hasattr(object, name):
            return True
        return bool(c.ext_bases) and any(hasattr(getattr(_b, b, object), name) for b in c.ext_bases)

    # -- calls ------------------------------------------------------------------
    def call(self, n, env):
        # super()
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == 'super':
            return self.call_super(n, env)
        fv = self.ev(n.func, env)
        args = []
        stars = BOT
        has_star = False
        for x in n.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env)
                if len(v) == 1 and next(iter(v))[0] == 't' and not has_star:
                    args += list(next(iter(v))[1])
                else:
                    has_star = True
                    stars = join(stars, self.iterate(v, x, env))
            else:
                v = self.ev(x, env)
                if has_star:
                    stars = join(stars, v)
                else:
                    args.append(v)
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                kw['**'] = v
            else:
                kw[k.arg] = v
        return self.call_value(fv, args, kw, n, stars if has_star else None, env)

    def call_super(self, n, env):
        cls = self.f.cls
        args = [self.ev(x, env) for x in n.args]
        kw = {k.arg: self.ev(k.value, env) for k in n.keywords if k.arg}
        if cls is None:
            return VU
        first = self.f.params()[0] if self.f.params() else None
        selfv = env.get(first, VU)
        for k in cls.mro()[1:]:
            if n.func.attr in k.methods:
                raw = self.e.hget((('cls', k.name), n.func.attr), self.c)
                fv = self.bind_raw(raw, selfv, selfv, n)
                return self.call_value(fv, args, kw, n)
        return VU

    def call_attr(self, v, name, args, kw, node):
        return self.call_value(self.attr(v, name, node), args, kw, node)

    def call_value(self, fv, args, kw, node, stars=None, env=None):
        out = BOT
        for a in fv:
            if a[0] == 'F':
                out = join(out, self.call_func(a, args, kw, node, stars, env))
            elif a[0] == 'M':
                out = join(out, self.call_value(V(a[1]), [a[2]] + args, kw, node, stars, env))
            elif a[0] == 'wrapped':
                out = join(out, self.call_value(V(a[2]), args, kw, node, stars, env))
            elif a[0] == 'K':
                out = join(out, self.instantiate(a[1], args, kw, node, stars, env))
            elif a[0] == 'B':
                out = join(out, self.call_builtin(a[1], args, kw, node, stars, env))
            elif a[0] == 'bm':
                out = join(out, self.call_bm(a[1], a[2], args, kw, node, env))
            elif a[0] == 'ext':
                out = join(out, self.call_ext(a[1], args, kw, node, stars, env))
            elif a[0] == 'o':
                cls = kind_cls(site_kind(a[1]))
                if cls and self.class_lookup(cls, '__call__'):
                    out = join(out, self.call_value(self.attr1(a, '__call__', node), args, kw, node, stars, env))
                else:
                    self.e.event('not-callable', self.c, node, self.atom_name(a))
            elif a[0] == 'any':
                out = join(out, VU)
            elif a[0] in ('i', 's', 't', 't*', 'b', 'f'):
                self.e.event('not-callable', self.c, node, self.atom_name(a))
            else:
                out = join(out, VU if a[0] != 'n' else BOT)
        return limit(out)

    def instantiate(self, cls, args, kw, node, stars, env):
        s = ('T', 'inst:' + cls, ())
        o = ('o', ('G', s) if self.is_module else s)
        ini = self.class_lookup(cls, '__init__')
        if ini:
            lo = ('o', s)
            self.call_value(self.bind_raw(ini, V(lo), V(('K', cls)), node), args, kw, node, stars, env)
        elif self.is_dictlike(cls):
            for v in args:
                for a in v:
                    if a[0] == 'o' and (site_kind(a[1]) in ('dict', 'ddict') or kind_cls(site_kind(a[1]))):
                        self.e.fill(s, 'elem', self.e.content(a[1], 'elem', self.c))
                        self.e.fill(s, 'key', self.e.content(a[1], 'key', self.c))
                    elif a[0] != 'n':
                        el = self.iterate(V(a), node, env)
                        for b in el:
                            if b[0] == 't' and len(b[1]) == 2:
                                self.e.fill(s, 'key', b[1][0])
                                self.e.fill(s, 'elem', b[1][1])
                            elif b[0] in ('t*', 'any'):
                                self.e.fill(s, 'key', tup_elem(b) if b[0] == 't*' else V(b))
                                self.e.fill(s, 'elem', tup_elem(b) if b[0] == 't*' else V(b))
        elif args or kw:
            c = self.e.p.classes.get(cls)
            if c is not None and not c.ext_bases and c.find('__init__') is None:
                self.e.event('arity', self.c, node, cls, 'constructor takes no arguments')
        return V(o)

    def call_func(self, fa, args, kw, node, stars, env):
        f = self.e.p.funcs[fa[1]]
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        args = [limit(x) for x in args]
        if len(args) > len(pos) and not a.vararg:
            self.e.event('arity', self.c, node, f.qual, 'too many positional arguments (%d for %d)' % (len(args), len(pos)))
            return BOT
        for p, v in zip(pos, args):
            bound[p] = v
        extra = list(args[len(pos):])
        if stars is not None:
            for p in pos[len(args):]:
                bound[p] = stars
        kwextra = {}
        for k, v in kw.items():
            if k == '**':
                continue
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                if k in bound and stars is None:
                    self.e.event('arity', self.c, node, f.qual, 'multiple values for %s' % k)
                bound[k] = limit(v)
            elif a.kwarg:
                kwextra[k] = v
            else:
                self.e.event('arity', self.c, node, f.qual, 'unexpected keyword %s' % k)
                return BOT
        defaults = f.defaults()
        for p in pos + [x.arg for x in a.kwonlyargs]:
            if p not in bound or (stars is not None and p in pos[len(args):] and p in defaults and p not in kw):
                if p in defaults:
                    d = self.default_value(f, fa, defaults[p])
                    bound[p] = join(bound.get(p, BOT), d)
                elif p not in bound and '**' not in kw:
                    self.e.event('arity', self.c, node, f.qual, 'missing argument %s' % p)
                    return BOT
                elif p not in bound:
                    bound[p] = VU
        if a.vararg:
            if stars is not None:
                el = join(stars, *extra)
                bound[a.vararg.arg] = V(('t*', el))
            else:
                bound[a.vararg.arg] = V(('t', tuple(extra))) if len(extra) <= 6 else V(('t*', join(*extra)))
        if a.kwarg:
            el = join(*kwextra.values()) if kwextra else BOT
            bound[a.kwarg.arg] = V(('o', ('T', 'dict', (('elem', join(el, kw.get('**', BOT)) if '**' in kw else el), ('key', VS)))))
        # an argument that cannot have any value yet: wait
        for p, v in bound.items():
            if v == BOT:
                return BOT
        env_id = fa[2]
        modular = f.qual in self.e.modular
        if modular:
            actual = list(bound.values())
            for p, v in bound.items():
                self.check_callback(f, p, v, node)
            keep = pos[0] if f.cls is not None and pos else None
            new = {}
            defs = f.defaults()
            for p, v in bound.items():
                if p == keep and f.name == '__init__' and any(x[0] == 'o' for x in v):
                    new[p] = frozenset(x for x in v if x[0] == 'o')
                elif p == keep and any(x[0] in ('o', 'K') for x in v):
                    new[p] = V(*[('o', ('E', ('T', site_base(x[1])[1] if site_base(x[1])[0] == 'T' else site_kind(x[1]), ()))) if x[0] == 'o' else x for x in v if x[0] in ('o', 'K')])
                elif a.vararg and p == a.vararg.arg:
                    new[p] = V(('t*', self.e.contracts(f, p)))
                elif a.kwarg and p == a.kwarg.arg:
                    new[p] = v
                else:
                    new[p] = self.e.modular_arg(f, p, defs)
            bound = new
        ctx = self.e.call_ctx(f, env_id, bound, self.c)
        self.c.callees.add((ctx.id, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)))
        self.e.ret_readers[ctx.id].add(self.c)
        if ctx.published and env is not None:
            passed = set()
            for v in bound.values():
                for s in objs(v):
                    passed.add(s)
            pub = ctx.published & frozenset(site_base(x) for x in self.reach(passed))
            self.mark_published(pub, env)
        if modular:
            for v in actual:
                self.call_unknown(v, node)
            return self.localise(ctx.ret, actual, node)
        return ctx.ret

    def check_callback(self, f, p, v, node):
        """the function given for parameter p must fit one of the calls f makes of it"""
        if len(v) != 1 or next(iter(v))[0] not in ('F', 'M'):
            return
        x = next(iter(v))
        fx = x if x[0] == 'F' else x[1]
        if fx[0] != 'F':
            return
        counts = self.e.callback_counts(f, p)
        g = self.e.p.funcs[fx[1]].node.args
        if not counts or g.vararg or g.kwarg or g.kwonlyargs:
            return
        most = len(g.posonlyargs + g.args) - (x[0] == 'M')
        least = most - len(g.defaults)
        if not any(least <= k <= most for k in counts):
            self.e.event('arity', self.c, node, f.qual, '%s is called with %s, the function given takes %s' % (p, '/'.join(map(str, sorted(counts))), most))

    def call_unknown(self, v, node):
        """v is handed to code that may call it with anything"""
        for x in v:
            if x[0] in ('F', 'M'):
                fx = x if x[0] == 'F' else x[1]
                if fx[0] != 'F' or fx[1] in self.e.modular:
                    continue
                f = self.e.p.funcs[fx[1]]
                ps = f.params()
                if x[0] == 'M':
                    ps = ps[1:]
                self.call_value(V(x), [self.e.modular_arg(f, p, f.defaults()) for p in ps], {}, node)

    def reach(self, sites):
        todo = [x for x in sites if site_region(x) == 'L']
        seen = set(todo)
        while todo:
            x = todo.pop()
            for key in self.e.by_base.get(x, ()):
                for y in objs(self.e.heap[key]):
                    if site_region(y) == 'L' and y not in seen:
                        seen.add(y)
                        todo.append(y)
        return seen

    def localise(self, ret, actual, node):
        """result of an operation analysed with caller-owned operands, seen by a
        caller that owns the operands differently"""
        if not any(site_region(x) == 'E' for x in objs(ret)) and EXT not in ret and not any(a[0] in ('t', 't*') for a in ret):
            return ret
        pool = {}
        anyr = set()
        for v in actual:
            for x in objs(v):
                pool.setdefault(site_kind(x), set()).add(x)
            for a in v:
                if a[0] == 'any':
                    anyr.add(a[1])
        regs = {site_region(x) for xs in pool.values() for x in xs} | anyr
        ext = 'E' if 'E' in regs else 'C' if regs & {'C', 'G'} else 'U'

        def conv(v):
            out = set()
            for a in v:
                if a[0] == 'o' and a[1][0] == 'E':
                    k = site_kind(a[1])
                    if k in pool:
                        out |= {('o', x) for x in pool[k]}
                    elif ext == 'U':
                        out.add(('o', a[1][1]))
                    else:
                        out.add(('o', (ext, a[1][1])))
                elif a == EXT:
                    out.add(('any', ext))
                elif a[0] == 't':
                    out.add(('t', tuple(conv(x) for x in a[1])))
                elif a[0] == 't*':
                    out.add(('t*', conv(a[1])))
                else:
                    out.add(a)
            return frozenset(out)
        return conv(ret)

    def default_value(self, f, fa, expr):
        # defaults are evaluated in the defining scope; containers live as long as the function
        c = Ctx(-1, f, None, ())
        if isinstance(expr, ast.Constant):
            return self.ev(expr, {})
        if isinstance(expr, (ast.Dict, ast.List, ast.Set)) or (isinstance(expr, ast.Call) and isinstance(expr.func, ast.Name) and expr.func.id in ('dict', 'list', 'set', 'defaultdict')):
            k = {ast.Dict: 'dict', ast.List: 'list', ast.Set: 'set'}.get(type(expr), None) or {'defaultdict': 'ddict'}.get(expr.func.id, expr.func.id)
            s = ('L', ('%s:default:%s:%s' % (f.qual, expr.lineno, expr.col_offset),), k)
            return V(('o', ('G', s)))
        if isinstance(expr, ast.Tuple) and not expr.elts:
            return V(('t', ()))
        if isinstance(expr, ast.Lambda):
            g = self.e.p.func_of_node.get(expr)
            if g is not None:
                return V(('F', g.qual, fa[2]))
        if f.parent is None:
            mf = self.e.module_funcs.get(f.module.name)
            sub = Interp(self.e, Ctx(-2, mf, None, ()))
            sub.c.id = 10**9
            sub.is_module = True
            sub.c = self.c
            v = sub.ev(expr, {})
            return v
        return VU

    # -- builtins ----------------------------------------------------------------
    def call_builtin(self, name, args, kw, node, stars, env):
        e = self.e
        if stars is not None:
            args = args + [stars]
        if name in IO_BUILTINS:
            for v in args:
                self.stringify(v, node)
            e.event('io', self.c, node, name)
            return VS if name == 'input' else (VN if name == 'print' else VU)
        a0 = args[0] if args else BOT
        it = lambda i=0: self.iterate(args[i], node, env) if len(args) > i else BOT
        if name in ('len', 'hash', 'abs', 'ord', 'id', 'divmod', 'pow', 'round', 'int'):
            if name == 'len':
                for a in a0:
                    if a[0] == 'o':
                        k = site_kind(a[1])
                        cls = kind_cls(k)
                        if cls:
                            if self.class_lookup(cls, '__len__'):
                                self.call_attr(V(a), '__len__', [], {}, node)
                            elif not self.is_dictlike(cls):
                                e.event('no-len', self.c, node, cls)
                        elif k in ('gen', 'iter'):
                            e.event('no-len', self.c, node, k)
                    elif a[0] in ('i', 'b', 'f'):
                        e.event('no-len', self.c, node, self.atom_name(a))
                    elif a[0] == 'n':
                        e.event('none-len', self.c, node)
            if name == 'hash':
                self.hash_all(a0, node)
            if name == 'id':
                e.event('identity', self.c, node)
            if name == 'pow' and len(args) == 2:
                return self.binop(args[0], args[1], ast.Pow, node)
            if name == 'abs':
                out = BOT
                for a in a0:
                    if a[0] == 'o' and kind_cls(site_kind(a[1])):
                        out = join(out, self.call_attr(V(a), '__abs__', [], {}, node))
                    elif a[0] == 'f':
                        out = join(out, V(FLT))
                    elif a[0] in ('any', 'i', 'b'):
                        out = join(out, VI)
                    elif a[0] == 'n':
                        e.event('none-arith', self.c, node)
                    else:
                        e.event('bad-operands', self.c, node, 'abs', self.atom_name(a), '')
                return out
            if name == 'divmod':
                return V(('t', (VI, VI)))
            return VI
        if name == 'bool':
            self.truth(a0, node)
            a, b = self.may(a0) if args else (False, True)
            return V(*([TRUE] if a else []) + ([FALSE] if b else []))
        if name in ('float', 'complex'):
            e.event('float', self.c, node, name)
            return V(FLT)
        if name in ('str', 'repr', 'ascii', 'format', 'chr', 'bin', 'hex', 'oct'):
            if args:
                self.stringify(a0, node)
            return VS
        if name == 'tuple':
            if not args:
                return V(('t', ()))
            if all(a[0] == 't' for a in a0) and a0:
                return a0
            return limit(V(('t*', it())))
        if name == 'list':
            return V(self.fresh(node, 'list', it()))
        if name in ('set', 'frozenset'):
            el = it()
            self.hash_all(el, node)
            return V(self.fresh(node, 'set', el))
        if name == 'dict':
            kv, vv = BOT, BOT
            for a in a0:
                if a[0] == 'o' and (site_kind(a[1]) in ('dict', 'ddict') or kind_cls(site_kind(a[1]))):
                    kv = join(kv, e.content(a[1], 'key', self.c))
                    vv = join(vv, e.content(a[1], 'elem', self.c))
                else:
                    for b in self.iterate(V(a), node, env):
                        if b[0] == 't' and len(b[1]) == 2:
                            kv, vv = join(kv, b[1][0]), join(vv, b[1][1])
                        else:
                            kv, vv = join(kv, VU), join(vv, VU)
            for k, v in kw.items():
                kv, vv = join(kv, VS), join(vv, v)
            return V(self.fresh(node, 'dict', vv, kv))
        if name == 'sorted':
            el = it()
            self.cmp_all(el, node, kw)
            return V(self.fresh(node, 'list', el))
        if name in ('min', 'max'):
            if len(args) == 1 and stars is None:
                el = it()
            else:
                el = join(*args) if args else BOT
            self.cmp_all(el, node, kw)
            if 'default' in kw:
                el = join(el, kw['default'])
            return el
        if name == 'sum':
            el = it()
            start = args[1] if len(args) > 1 else kw.get('start', VI)
            out = start
            for _ in range(2):
                out = join(out, self.binop(out, el, ast.Add, node)) if el else out
            return out
        if name in ('any', 'all'):
            el = it()
            self.truth(el, node)
            return BOOL
        if name == 'range':
            return V(('o', ('T', 'range', (('elem', VI),))))
        if name == 'enumerate':
            return V(self.fresh(node, 'iter', V(('t', (VI, it())))))
        if name == 'zip':
            return V(self.fresh(node, 'iter', limit(V(('t', tuple(self.iterate(x, node, env) for x in args))))))
        if name == 'reversed':
            for a in a0:
                if a[0] == 'o' and site_kind(a[1]) in ('set', 'gen', 'iter'):
                    e.event('bad-operands', self.c, node, 'reversed', site_kind(a[1]), '')
            return V(self.fresh(node, 'iter', it()))
        if name == 'map':
            els = [self.iterate(x, node, env) for x in args[1:]]
            r = self.call_value(a0, els, {}, node, None, env)
            return V(self.fresh(node, 'iter', r))
        if name == 'filter':
            el = it(1)
            self.call_value(a0, [el], {}, node, None, env) if a0 != VN else None
            return V(self.fresh(node, 'iter', el))
        if name == 'iter':
            return V(self.fresh(node, 'iter', it()))
        if name == 'next':
            el = it()
            for a in a0:
                if a[0] == 'o' and site_kind(a[1]) not in ('gen', 'iter', 'view') and not kind_cls(site_kind(a[1])):
                    e.event('bad-operands', self.c, node, 'next', site_kind(a[1]), '')
            if len(args) > 1:
                el = join(el, args[1])
            return el
        if name == 'type':
            out = BOT
            for a in a0:
                if a[0] == 'o':
                    cls = kind_cls(site_kind(a[1]))
                    k = site_kind(a[1])
                    out = join(out, V(('K', cls)) if cls else V(('B', k)) if k in TYPE_NAMES else VU)
                elif a[0] in ('i', 's', 't', 't*', 'b', 'f'):
                    out = join(out, V(('B', self.atom_name(a))))
                else:
                    out = join(out, VU)
            return out
        if name in ('isinstance', 'issubclass', 'callable', 'hasattr'):
            return BOOL
        if name == 'getattr':
            return VU
        if name in ('setattr', 'delattr'):
            for a in a0:
                if a[0] == 'o' and site_region(a[1]) != 'L':
                    e.event('setattr', self.c, node, site_region(a[1]), kind_cls(site_kind(a[1])) or site_kind(a[1]), '?')
                elif a[0] == 'any' and a[1] != 'U':
                    e.event('setattr', self.c, node, a[1], '?', '?')
            return VN
        if name in ('globals', 'locals', 'vars'):
            e.event('reflection', self.c, node, name)
            return VU
        if name in ('Exception', 'ValueError', 'TypeError', 'KeyError', 'AssertionError', 'NotImplementedError', 'IndexError', 'StopIteration', 'RuntimeError', 'ZeroDivisionError'):
            return VU
        if name == 'slice':
            return VU
        if name == 'object':
            return VU
        return VU

    def cmp_all(self, el, node, kw):
        if 'key' in kw:
            self.call_value(kw['key'], [el], {}, node)
            return
        for a in el:
            if a[0] == 'o':
                cls = kind_cls(site_kind(a[1]))
                if cls and self.class_lookup(cls, '__lt__'):
                    self.call_attr(V(a), '__lt__', [V(a)], {}, node)

    def call_ext(self, name, args, kw, node, stars, env):
        e = self.e
        it = lambda i=0: self.iterate(args[i], node, env) if len(args) > i else BOT
        if name in ('collections.defaultdict',):
            o = self.fresh(node, 'ddict')
            if args:
                d = self.call_value(args[0], [], {}, node) if args[0] != VN else BOT
                e.hput((site_base(o[1]), 'default'), d)
            return V(o)
        if name in ('collections.OrderedDict', 'collections.Counter'):
            return self.call_builtin('dict', args, kw, node, stars, env)
        if name == 'collections.deque':
            return V(self.fresh(node, 'deque', it()))
        if name in ('itertools.combinations', 'itertools.permutations', 'itertools.combinations_with_replacement'):
            return V(self.fresh(node, 'iter', limit(V(('t*', it())))))
        if name == 'itertools.product':
            el = join(*[self.iterate(x, node, env) for x in args], stars or BOT)
            return V(self.fresh(node, 'iter', limit(V(('t*', el)))))
        if name in ('itertools.chain', 'itertools.chain.from_iterable'):
            el = BOT
            for x in args:
                y = self.iterate(x, node, env)
                el = join(el, self.iterate(y, node, env) if name.endswith('from_iterable') else y)
            if stars:
                el = join(el, self.iterate(stars, node, env))
            return V(self.fresh(node, 'iter', el))
        if name in ('itertools.accumulate',):
            return V(self.fresh(node, 'iter', it()))
        if name in ('itertools.islice', 'itertools.takewhile', 'itertools.dropwhile', 'itertools.cycle', 'itertools.filterfalse'):
            el = it(0) if name in ('itertools.islice', 'itertools.cycle') else it(1)
            if name not in ('itertools.islice', 'itertools.cycle'):
                self.call_value(args[0], [el], {}, node)
            return V(self.fresh(node, 'iter', el))
        if name == 'itertools.count':
            return V(self.fresh(node, 'iter', VI))
        if name == 'itertools.repeat':
            return V(self.fresh(node, 'iter', args[0] if args else BOT))
        if name == 'operator.itemgetter':
            return V(('B', 'itemgetter'))
        if name == 'functools.reduce':
            el = it(1)
            acc = join(el, args[2]) if len(args) > 2 else el
            for _ in range(2):
                acc = join(acc, self.call_value(args[0], [acc, el], {}, node))
            return acc
        if name in ('copy.copy', 'copy.deepcopy'):
            out = BOT
            for a in args[0] if args else ():
                if a[0] == 'o':
                    k = site_kind(a[1])
                    cls = kind_cls(k)
                    if cls:
                        out = join(out, V(('o', ('T', k, ()))))
                    else:
                        out = join(out, V(self.fresh(node, k, e.content(a[1], 'elem', self.c), e.content(a[1], 'key', self.c))))
                else:
                    out = join(out, V(a))
            return out
        root = name.split('.')[0]
        if root in ('random', 'time', 'datetime', 'secrets', 'uuid'):
            e.event('nondet', self.c, node, name)
            return VU
        if root == 'math':
            if name in ('math.gcd', 'math.comb', 'math.factorial', 'math.perm', 'math.isqrt', 'math.lcm', 'math.prod'):
                return VI
            e.event('float', self.c, node, name)
            return V(FLT)
        if root in ('subprocess', 'os', 'sys', 'shutil', 'socket', 'pathlib', 'io', 'tempfile', 'logging', 'threading', 'pickle'):
            e.event('io', self.c, node, name)
            return VU
        if root in ('decimal', 'numpy'):
            e.event('float', self.c, node, name)
            return VU
        if root == 'warnings' or name.startswith('traceback.print'):
            e.event('io', self.c, node, name)
            return VN
        if root == 'traceback':
            return VS
        e.event('unknown-ext', self.c, node, name)
        return VU

    def call_bm(self, name, recv, args, kw, node, env):
        e = self.e
        it = lambda i=0: self.iterate(args[i], node, env, quiet=True) if len(args) > i else BOT
        if recv[0] == 's':
            for v in args:
                pass
            if name == 'join':
                self.iterate(args[0], node, env) if args else None
                return VS
            if name == 'format':
                for v in args:
                    self.stringify(v, node)
                return VS
            if name in ('split', 'splitlines', 'rsplit'):
                return V(self.fresh(node, 'list', VS))
            if name in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isspace', 'isupper', 'islower', 'isnumeric'):
                return BOOL
            if name in ('find', 'index', 'count', 'rfind', 'rindex'):
                return VI
            if name in ('partition', 'rpartition'):
                return V(('t', (VS, VS, VS)))
            return VS
        if recv[0] in ('t', 't*'):
            return VI
        if recv[0] in ('i', 'b', 'f'):
            return VI
        if recv[0] == 'any':
            region = recv[1]
            if name in ALL_MUTATORS and region in ('E', 'C'):
                # ambiguous names also used by immutable classes: only report when no class defines it
                if not self.method_owners(name):
                    e.event('mut' + region, self.c, node, '.' + name, '?')
            return V(('any', region))
        s = recv[1]
        k = site_kind(s)
        cls = kind_cls(k)
        base = 'dict' if k == 'ddict' or cls else k
        if k in ('gen', 'iter', 'view', 'range'):
            if name in ('__next__', 'send', 'throw'):
                return e.content(s, 'elem', self.c)
            if name in ('union', 'intersection', 'difference'):
                return V(self.fresh(node, 'set', join(e.content(s, 'elem', self.c), *[self.iterate(x, node, env) for x in args])))
            if name in ('count', 'index'):
                return VI
            if name == 'isdisjoint':
                return BOOL
            if name == 'close':
                return VN
            e.event('no-attribute', self.c, node, k, name)
            return BOT
        if name in MUTATORS.get(base, ()):
            self.mutate(V(recv), '.' + name, node)
            el = BOT
            if base in ('list', 'deque'):
                if name in ('append', 'appendleft'):
                    el = args[0] if args else BOT
                elif name in ('extend', 'extendleft', '__iadd__'):
                    el = it()
                elif name == 'insert':
                    el = args[1] if len(args) > 1 else BOT
            elif base == 'set':
                if name == 'add':
                    el = args[0] if args else BOT
                    self.hash_all(el, node)
                elif name in ('update', '__ior__', 'symmetric_difference_update'):
                    for x in args:
                        el = join(el, self.iterate(x, node, env))
            elif base == 'dict':
                if name == 'setdefault':
                    e.fill(s, 'key', args[0] if args else BOT)
                    el = args[1] if len(args) > 1 else VN
                    e.fill(s, 'elem', el)
                    if s[0] == 'G' and len(args) > 1:
                        self.publish(args[1], s, node, env)
                    return join(e.content(s, 'elem', self.c), retag('C', el) if s[0] == 'G' else el)
                if name == '__setitem__' and len(args) == 2:
                    e.fill(s, 'key', args[0])
                    el = args[1]
                if name == 'update':
                    for x in args:
                        for a in x:
                            if a[0] == 'o' and (site_kind(a[1]) in ('dict', 'ddict') or kind_cls(site_kind(a[1]))):
                                e.fill(s, 'key', e.content(a[1], 'key', self.c))
                                el = join(el, e.content(a[1], 'elem', self.c))
                            else:
                                for b in self.iterate(V(a), node, env, quiet=True):
                                    if b[0] == 't' and len(b[1]) == 2:
                                        e.fill(s, 'key', b[1][0])
                                        el = join(el, b[1][1])
                                    else:
                                        e.fill(s, 'key', VU)
                                        el = join(el, VU)
                    for kk, x in kw.items():
                        e.fill(s, 'key', VS)
                        el = join(el, x)
            if el:
                e.fill(s, 'elem', el)
                if s[0] == 'G':
                    self.publish(el, s, node, env)
            if name == 'sort':
                self.cmp_all(e.content(s, 'elem', self.c), node, kw)
            if name in ('pop', 'popleft'):
                v = e.content(s, 'elem', self.c)
                if base == 'dict' and len(args) > 1:
                    v = join(v, args[1])
                return v
            if name == 'popitem':
                return V(('t', (e.content(s, 'key', self.c), e.content(s, 'elem', self.c))))
            if name in ('__iadd__', '__ior__'):
                return V(recv)
            return VN
        if base == 'dict':
            if name == 'get':
                d = args[1] if len(args) > 1 else kw.get('default', VN)
                return join(e.content(s, 'elem', self.c), d)
            if name in ('keys',):
                return V(self.fresh(node, 'view', e.content(s, 'key', self.c)))
            if name == 'values':
                return V(self.fresh(node, 'view', e.content(s, 'elem', self.c)))
            if name == 'items':
                return V(self.fresh(node, 'view', limit(V(('t', (e.content(s, 'key', self.c), e.content(s, 'elem', self.c)))))))
            if name == 'copy':
                o = self.fresh(node, 'ddict' if k == 'ddict' else 'dict', e.content(s, 'elem', self.c), e.content(s, 'key', self.c))
                if k == 'ddict':
                    e.hput((site_base(o[1]), 'default'), e.content(s, 'default', self.c))
                return V(o)
            if name == '__iter__':
                return V(self.fresh(node, 'iter', e.content(s, 'key', self.c)))
            if name == '__getitem__':
                return e.content(s, 'elem', self.c)
        if name == 'copy':
            return V(self.fresh(node, base, e.content(s, 'elem', self.c)))
        if name in ('union', 'intersection', 'difference', 'symmetric_difference'):
            el = e.content(s, 'elem', self.c)
            if name in ('union', 'symmetric_difference'):
                for x in args:
                    el = join(el, self.iterate(x, node, env))
            return V(self.fresh(node, 'set', el))
        if name in ('index', 'count', '__len__'):
            return VI
        if name in ('issubset', 'issuperset', 'isdisjoint', '__contains__'):
            return BOOL
        if name == '__iter__':
            return V(self.fresh(node, 'iter', e.content(s, 'elem', self.c)))
        if name == '__getitem__':
            return e.content(s, 'elem', self.c)
        return VU
