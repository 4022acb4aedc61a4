"""Reaching definitions and backward dependence for one function at a time.

Every name load gets the set of definitions that can reach it; a definition
knows the expressions its value is made from and the tests that decide whether
(or how often) it happens.  Stores into a container or an attribute of a name
are further definitions of that name.
"""
import ast

from .program import walk_own

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)
MUT = {'append', 'extend', 'add', 'update', 'insert', 'remove', 'pop', 'popitem', 'clear', 'discard', 'sort', 'reverse',
       'setdefault', 'appendleft', 'extendleft', 'popleft', 'intersection_update', 'difference_update',
       'symmetric_difference_update', '__setitem__', '__delitem__'}
VALUED = {'pop', 'popitem', 'setdefault', 'popleft'}     # mutators that also return something


class Def:
    __slots__ = ('id', 'kind', 'name', 'node', 'exprs', 'control', 'prev', 'scope', 'path', 'whole')

    def __init__(self, id, kind, name, node, exprs, control, prev, scope, path=(), whole=None):
        self.id = id
        self.kind = kind          # param assign for comp aug mut func import except del global
        self.name = name
        self.node = node
        self.exprs = exprs        # expressions whose values make up the value
        self.control = control    # tests deciding whether this happens
        self.prev = prev          # definitions of the same name this one builds on
        self.scope = scope        # Flow
        self.path = path          # position inside an unpacked value
        self.whole = whole        # the expression the name is bound to, when bound whole

    def __repr__(self):
        return '<%s %s@%s>' % (self.kind, self.name, getattr(self.node, 'lineno', '?'))

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other


class Exit:
    """a test that can end a loop early (kind 'end') or skip the rest of one round ('skip')"""
    __slots__ = ('loop', 'test', 'kind')

    def __init__(self, loop, test, kind):
        self.loop, self.test, self.kind = loop, test, kind

    def __eq__(self, o):
        return isinstance(o, Exit) and self.loop is o.loop and self.test is o.test and self.kind == o.kind

    def __hash__(self):
        return hash((id(self.loop), id(self.test), self.kind))


class Flow:
    """def-use facts of one function body (or module body)"""
    counter = [0]

    def __init__(self, node, func=None, parent=None):
        self.node = node
        self.func = func
        self.parent = parent
        self.uses = {}        # Name node -> frozenset of Def
        self.defs = {}        # name -> list of Def
        self.returns = []     # (expr or None, control, node)
        self.yields = []
        self.nested = {}      # nested function/lambda node -> Flow (lazily)
        self.globals = set()
        self.nonlocals = set()
        self.control_of = {}  # statement -> control tests
        self._bydefkey = {}
        self.locals = self._locals()
        self.void = set()           # calls whose value is thrown away or only tested
        for x in walk_own(node):
            ys = [x.value] if isinstance(x, ast.Expr) else x.values if isinstance(x, ast.BoolOp) else \
                [x.elt] if isinstance(x, (ast.ListComp, ast.GeneratorExp)) else [x.operand] if isinstance(x, ast.UnaryOp) else \
                [x.body, x.orelse] if isinstance(x, ast.IfExp) else [x.body] if isinstance(x, ast.Lambda) else ()
            self.void |= {id(y) for y in ys}
        if isinstance(node, ast.Lambda):
            self.void.add(id(node.body))
        env = {}
        if hasattr(node, 'args'):
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
                d = self.mk('param', x.arg, x, [], (), frozenset())
                env[x.arg] = frozenset([d])
        body = node.body if isinstance(node.body, list) else None
        if body is None:
            self.expr(node.body, env, ())
            self.returns.append((node.body, (), node))
        else:
            self.block(body, env, (), [])

    # ---------------------------------------------------------------- helpers
    def _locals(self):
        out = set()
        n = self.node
        if hasattr(n, 'args'):
            a = n.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
                out.add(x.arg)
        if not isinstance(n.body, list):
            return out
        skip = set()
        for x in walk_own(n):
            if isinstance(x, ast.Global):
                self.globals |= set(x.names)
            elif isinstance(x, ast.Nonlocal):
                self.nonlocals |= set(x.names)
            elif isinstance(x, FUNCS + (ast.ClassDef,)):
                out.add(x.name)
            elif isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                for al in x.names:
                    out.add((al.asname or al.name).split('.')[0])
            elif isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
        # comprehension targets live in their own scope
        comp = set()
        for x in walk_own(n):
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for g in x.generators:
                    comp |= {y.id for y in ast.walk(g.target) if isinstance(y, ast.Name)}
                    skip |= {id(y) for y in ast.walk(g.target) if isinstance(y, ast.Name)}
        for c in comp:
            if not any(isinstance(x, ast.Name) and x.id == c and isinstance(x.ctx, (ast.Store, ast.Del)) and id(x) not in skip for x in walk_own(n)) \
                    and not (hasattr(n, 'args') and c in {y.arg for y in ast.walk(n.args) if isinstance(y, ast.arg)}):
                out.discard(c)
        return out - self.globals - self.nonlocals

    def mk(self, kind, name, node, exprs, control, prev, path=(), whole=None):
        key = (kind, name, id(node), path)
        d = self._bydefkey.get(key)
        if d is None:
            self.counter[0] += 1
            d = Def(self.counter[0], kind, name, node, list(exprs), tuple(control), frozenset(prev), self, path, whole)
            self._bydefkey[key] = d
            self.defs.setdefault(name, []).append(d)
        else:
            d.prev = d.prev | frozenset(prev)
        return d

    @staticmethod
    def join(*envs):
        envs = [e for e in envs if e is not None]
        if not envs:
            return None
        out = dict(envs[0])
        for e in envs[1:]:
            for k, v in e.items():
                out[k] = out[k] | v if k in out else v
        return out

    # ------------------------------------------------------------- statements
    def block(self, stmts, env, ctl, loops):
        for s in stmts:
            if env is None:
                # unreachable code: still resolve its uses loosely
                env = {}
            env = self.stmt(s, env, ctl, loops)
            if env is None:
                return None
        return env

    def stmt(self, s, env, ctl, loops):
        self.control_of[s] = ctl
        if isinstance(s, ast.Expr):
            self.expr(s.value, env, ctl)
            return env
        if isinstance(s, ast.Assign):
            self.expr(s.value, env, ctl)
            for t in s.targets:
                self.bind(t, s.value, env, ctl, s, 'assign')
            return env
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.expr(s.value, env, ctl)
                self.bind(s.target, s.value, env, ctl, s, 'assign')
            return env
        if isinstance(s, ast.AugAssign):
            self.expr(s.value, env, ctl)
            if isinstance(s.target, ast.Name):
                n = s.target.id
                prev = env.get(n, frozenset())
                self.uses[s.target] = prev
                env[n] = frozenset([self.mk('aug', n, s, [s.value], ctl, prev)])
            else:
                self.expr(s.target, env, ctl)
                self.mutate(s.target, [s.value], env, ctl, s)
            return env
        if isinstance(s, ast.Return):
            if s.value is not None:
                self.expr(s.value, env, ctl)
            self.returns.append((s.value, ctl, s))
            return None
        if isinstance(s, ast.Raise):
            for x in (s.exc, s.cause):
                if x is not None:
                    self.expr(x, env, ctl)
            return None
        if isinstance(s, ast.Assert):
            self.expr(s.test, env, ctl)
            if s.msg is not None:
                self.expr(s.msg, env, ctl)
            return env
        if isinstance(s, ast.If):
            self.expr(s.test, env, ctl)
            c = ctl + (s.test,)
            a = self.block(s.body, dict(env), c, loops)
            b = self.block(s.orelse, dict(env), c, loops) if s.orelse else dict(env)
            if isinstance(s.test, ast.Constant):
                return a if s.test.value else b
            return self.join(a, b)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.expr(s.iter, env, ctl)
            tests = tuple(self.exit_tests(s))
            inner = ctl + (s.iter,) + tests
            cur = dict(env)
            exits = []
            for _ in range(8):
                it = dict(cur)
                self.bind(s.target, s.iter, it, ctl, s, 'for')
                rec = {'breaks': [], 'continues': []}
                end = self.block(s.body, it, inner, loops + [rec])
                new = self.join(cur, end, *rec['continues'])
                exits = rec['breaks']
                if new == cur:
                    break
                cur = new
            out = self.block(s.orelse, dict(cur), inner, loops) if s.orelse else cur
            return self.join(out, *exits)
        if isinstance(s, ast.While):
            tests = tuple(self.exit_tests(s))
            inner = ctl + (s.test,) + tests
            cur = dict(env)
            exits = []
            for _ in range(8):
                self.expr(s.test, cur, ctl)
                rec = {'breaks': [], 'continues': []}
                end = self.block(s.body, dict(cur), inner, loops + [rec])
                new = self.join(cur, end, *rec['continues'])
                exits = rec['breaks']
                if new == cur:
                    break
                cur = new
            if isinstance(s.test, ast.Constant) and s.test.value:
                return self.join(*exits)
            out = self.block(s.orelse, dict(cur), inner, loops) if s.orelse else cur
            return self.join(out, *exits)
        if isinstance(s, ast.Break):
            if loops:
                loops[-1]['breaks'].append(dict(env))
            return None
        if isinstance(s, ast.Continue):
            if loops:
                loops[-1]['continues'].append(dict(env))
            return None
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                self.expr(it.context_expr, env, ctl)
                if it.optional_vars is not None:
                    self.bind(it.optional_vars, it.context_expr, env, ctl, s, 'assign')
            return self.block(s.body, env, ctl, loops)
        if isinstance(s, ast.Try) or type(s).__name__ == 'TryStar':
            before = dict(env)
            a = self.block(s.body, env, ctl, loops)
            # a handler may see any prefix of the body
            mid = self.join(before, a, *[{d.name: frozenset([d])} for d in self.defs_in(s.body)])
            outs = []
            for h in s.handlers:
                e = dict(mid)
                if h.type is not None:
                    self.expr(h.type, e, ctl)
                if h.name:
                    e[h.name] = frozenset([self.mk('except', h.name, h, [], ctl, frozenset())])
                outs.append(self.block(h.body, e, ctl, loops))
            if s.orelse and a is not None:
                a = self.block(s.orelse, a, ctl, loops)
            out = self.join(a, *outs)
            if s.finalbody:
                f = self.block(s.finalbody, dict(out if out is not None else mid), ctl, loops)
                return f if out is not None else None
            return out
        if isinstance(s, FUNCS):
            for d in s.decorator_list + s.args.defaults + [x for x in s.args.kw_defaults if x is not None]:
                self.expr(d, env, ctl)
            env[s.name] = frozenset([self.mk('func', s.name, s, [], ctl, frozenset())])
            return env
        if isinstance(s, ast.ClassDef):
            env[s.name] = frozenset([self.mk('func', s.name, s, [], ctl, frozenset())])
            return env
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for al in s.names:
                n = (al.asname or al.name).split('.')[0]
                env[n] = frozenset([self.mk('import', n, s, [], ctl, frozenset())])
            return env
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env.pop(t.id, None)
                else:
                    self.expr(t, env, ctl)
                    self.mutate(t, [], env, ctl, s)
            return env
        if type(s).__name__ == 'Match':
            self.expr(s.subject, env, ctl)
            outs = [dict(env)]
            for case in s.cases:
                e = dict(env)
                for n in ast.walk(case.pattern):
                    nm = getattr(n, 'name', None) or getattr(n, 'rest', None)
                    if isinstance(nm, str):
                        e[nm] = frozenset([self.mk('assign', nm, n, [s.subject], ctl, frozenset())])
                c = ctl + (s.subject,)
                if case.guard is not None:
                    self.expr(case.guard, e, ctl)
                    c += (case.guard,)
                outs.append(self.block(case.body, e, c, loops))
            return self.join(*outs)
        return env

    def defs_in(self, stmts):
        nodes = {id(n) for s in stmts for n in ast.walk(s)}
        return [d for ds in self.defs.values() for d in ds if id(d.node) in nodes]

    def exit_tests(self, loop):
        """tests that can end the loop, or a round of it, early"""
        out = []

        def scan(stmts, tests, depth):
            for s in stmts:
                if isinstance(s, ast.Return) or (depth == 0 and isinstance(s, (ast.Break, ast.Continue))):
                    kind = 'skip' if isinstance(s, ast.Continue) else 'end'
                    out.extend(Exit(loop, t, kind) for t in tests)
                elif isinstance(s, ast.If):
                    scan(s.body, tests + [s.test], depth)
                    scan(s.orelse, tests + [s.test], depth)
                elif isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
                    t = [s.iter] if hasattr(s, 'iter') else [s.test]
                    scan(s.body, tests + t, depth + 1)
                    scan(s.orelse, tests + t, depth)
                elif isinstance(s, (ast.With, ast.AsyncWith)):
                    scan(s.body, tests, depth)
                elif isinstance(s, ast.Try):
                    for b in [s.body, s.orelse, s.finalbody] + [h.body for h in s.handlers]:
                        scan(b, tests, depth)
        scan(loop.body, [], 0)
        seen = set()
        return [t for t in out if not (t in seen or seen.add(t))]

    # ---------------------------------------------------------------- binding
    def bind(self, t, value, env, ctl, node, kind, path=()):
        if isinstance(t, ast.Name):
            if isinstance(value, (ast.Tuple, ast.List)) and path and kind == 'assign':
                v = value
                ok = True
                for i in path:
                    if isinstance(v, (ast.Tuple, ast.List)) and isinstance(i, int) and i < len(v.elts) and not any(isinstance(x, ast.Starred) for x in v.elts):
                        v = v.elts[i]
                    else:
                        ok = False
                        break
                if ok:
                    env[t.id] = frozenset([self.mk(kind, t.id, node, [v], ctl, frozenset(), path, v)])
                    return
            env[t.id] = frozenset([self.mk(kind, t.id, node, [value], ctl, frozenset(), path,
                                           value if not path and kind == 'assign' else None)])
        elif isinstance(t, (ast.Tuple, ast.List)):
            # right-hand sides of a parallel assignment are all read first
            new = {}
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.bind(x.value, value, new, ctl, node, kind, path + ('*',))
                elif isinstance(x, (ast.Name, ast.Tuple, ast.List)):
                    self.bind(x, value, new, ctl, node, kind, path + (i,))
                else:
                    self.expr(x, env, ctl)
                    self.mutate(x, [value], env, ctl, node)
            env.update(new)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, value, env, ctl, node, kind, path + ('*',))
        else:
            self.expr(t, env, ctl)
            self.mutate(t, [value], env, ctl, node)

    def mutate(self, t, exprs, env, ctl, node):
        """a store into (part of) the object a name stands for"""
        exprs = list(exprs)
        base = t
        while isinstance(base, (ast.Attribute, ast.Subscript, ast.Call, ast.Starred)):
            if isinstance(base, ast.Subscript):
                exprs.append(base.slice)
            if isinstance(base, ast.Call):
                exprs.extend(base.args)
                base = base.func
            else:
                base = base.value
        if isinstance(base, ast.Name):
            prev = env.get(base.id, frozenset())
            if base.id in self.locals:
                env[base.id] = frozenset([self.mk('mut', base.id, node, exprs, ctl, prev)]) | frozenset()
            else:
                self.mk('mut', base.id, node, exprs, ctl, prev)

    # ------------------------------------------------------------ expressions
    def expr(self, n, env, ctl):
        if n is None:
            return
        if isinstance(n, ast.Name):
            v = env.get(n.id, frozenset())
            if isinstance(n.ctx, ast.Load) or True:
                self.uses[n] = self.uses.get(n, frozenset()) | v
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            sub = dict(env)
            c = ctl
            for g in n.generators:
                self.expr(g.iter, sub, c)
                self.bind(g.target, g.iter, sub, c, g, 'comp')
                for cond in g.ifs:
                    self.expr(cond, sub, c)
            if isinstance(n, ast.DictComp):
                self.expr(n.key, sub, c)
                self.expr(n.value, sub, c)
            else:
                self.expr(n.elt, sub, c)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults:
                self.expr(d, env, ctl)
            return
        if isinstance(n, ast.NamedExpr):
            self.expr(n.value, env, ctl)
            env[n.target.id] = frozenset([self.mk('assign', n.target.id, n, [n.value], ctl, frozenset(), (), n.value)])
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            self.expr(n.value, env, ctl)
            if not any(x[2] is n for x in self.yields):
                self.yields.append((n.value, ctl, n))
            return
        if isinstance(n, ast.Call):
            for x in ast.iter_child_nodes(n):
                self.expr(x, env, ctl) if isinstance(x, ast.expr) else self.expr(x.value, env, ctl) if isinstance(x, ast.keyword) else None
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in MUT and (f.attr in VALUED or id(n) in self.void):
                self.mutate(f.value, list(n.args) + [k.value for k in n.keywords], env, ctl, n)
            return
        for x in ast.iter_child_nodes(n):
            if isinstance(x, ast.expr):
                self.expr(x, env, ctl)
            elif isinstance(x, (ast.comprehension, ast.keyword, ast.Slice)):
                self.expr(getattr(x, 'value', None), env, ctl)

    # ---------------------------------------------------------------- nesting
    def sub(self, node):
        if node not in self.nested:
            self.nested[node] = Flow(node, None, self)
        return self.nested[node]


def child_exprs(n):
    """direct sub-expressions of an expression, comprehension parts included"""
    if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
        out = [n.elt]
    elif isinstance(n, ast.DictComp):
        out = [n.key, n.value]
    else:
        out = []
        for x in ast.iter_child_nodes(n):
            if isinstance(x, ast.expr):
                out.append(x)
            elif isinstance(x, ast.keyword):
                out.append(x.value)
        return out
    for g in n.generators:
        out.append(g.iter)
        out.extend(g.ifs)
    return out


class Slice:
    """Backward slice of an expression: the inputs its value is made from.

    stop(flow, expr) -> a label to stop at this expression with, or None.
    leaf labels: ('param', name) ('free', name) ('global', name)
    """

    def __init__(self, flow, stop=None, control=True, inside=()):
        self.inside = inside      # loops around the point of observation
        self.flow = flow
        self.stop = stop or (lambda f, e: None)
        self.control = control
        self.leaves = {}
        self.bodies = set()
        self.seen = set()

    def leaf(self, label, node):
        self.leaves.setdefault(label, node)

    def expr(self, flow, e):
        key = (id(flow), id(e))
        if key in self.seen:
            return
        self.seen.add(key)
        st = self.stop(flow, e)
        if st is not None:
            self.leaf(('stop', st), e)
            return
        if isinstance(e, ast.Name):
            self.name(flow, e)
            return
        if isinstance(e, ast.Lambda):
            self.body(flow.sub(e))
            return
        for x in child_exprs(e):
            self.expr(flow, x)

    def name(self, flow, n):
        defs = flow.uses.get(n)
        if defs:
            for d in defs:
                self.definition(d)
            return
        self.outer(flow, n.id, n)

    def outer(self, flow, name, node):
        f = flow
        if name in f.locals:
            return      # local without a definition on this path
        f = f.parent
        while f is not None:
            if name in f.locals:
                for d in f.defs.get(name, ()):
                    self.definition(d)
                return
            f = f.parent
        self.leaf(('global', name), node)

    def definition(self, d):
        if d.id in self.seen:
            return
        self.seen.add(d.id)
        flow = d.scope
        if d.kind == 'param':
            if id(flow.node) in self.bodies:
                return      # filled in by the call, whose arguments are looked at where it is made
            self.leaf(('param', d.name, id(flow.node)), d.node)
            return
        if d.kind == 'func':
            if isinstance(d.node, FUNCS):
                self.body(flow.sub(d.node))
            return
        for p in d.prev:
            self.definition(p)
        for x in d.exprs:
            self.expr(flow, x)
        if self.control:
            for t in d.control:
                if isinstance(t, Exit):
                    if t.kind == 'end' and t.loop in self.inside:
                        continue
                    t = t.test
                self.expr(flow, t)

    def body(self, sub):
        """everything a nested function can look at, its own parameters aside"""
        if ('body', id(sub)) in self.seen:
            return
        self.seen.add(('body', id(sub)))
        self.bodies.add(id(sub.node))
        for n in walk_own(sub.node):
            if isinstance(n, ast.Lambda) or isinstance(n, FUNCS):
                self.body(sub.sub(n))
            elif isinstance(n, ast.stmt) or n is sub.node:
                for x in ast.iter_child_nodes(n):
                    if isinstance(x, ast.expr):
                        self.expr(sub, x)
        if not isinstance(sub.node.body, list):
            self.expr(sub, sub.node.body)
