"""How an answer scales when an operand is scaled.

An abstract interpreter over the syntax tree.  One operand is taken to be multiplied by an unknown
factor t; every value is given the power of t it carries.  A value is

    TOP                    not known
    ('v', degrees)         a number, polynomial, vector, key, ...: the powers of t it may carry
                           (no power: zero, or nothing at all); iterating over it gives its keys,
                           which carry none, indexing it or asking for its items its coefficients
    ('seq', element)       a list, set, generator or tuple of unknown length
    ('pair', (v, ...))     a tuple of known length
    ('fn', func, env, cls) a function, with the variables around it
    ('cls', Cls)           a class
"""
import ast

from .flow import FUNCS
from .program import Cls, Func, Module, walk_own

TOP = None
BOT = ('v', frozenset())
PLAIN = ('v', frozenset([0]))
DEPTH = 14
HOLDS = ('coeffs', 'dictionary', 'vector', '__class__')
DUNDER = {'__radd__': ast.Add, '__add__': ast.Add, '__sub__': ast.Sub, '__rsub__': ast.Sub, '__mul__': ast.Mult, '__rmul__': ast.Mult}
LINEAR = ('Vector', 'Polynomial', 'SymmetricPolynomial')
SAME = {'list', 'tuple', 'sorted', 'reversed', 'iter', 'set', 'frozenset', 'copy', 'dict', 'abs'}
FREE = {'len', 'range', 'type', 'isinstance', 'issubclass', 'hasattr', 'callable', 'any', 'all', 'print', 'bool', 'input', 'id', 'super'}


def degrees(v):
    """the powers of t a value carries, or None when they are not known"""
    if v is TOP:
        return None
    if v[0] == 'v':
        return v[1]
    if v[0] == 'seq':
        return degrees(v[1])
    if v[0] == 'pair':
        out = frozenset()
        for x in v[1]:
            d = degrees(x)
            if d is None:
                return None
            out |= d
        return out
    return frozenset([0])


def join(a, b):
    if a is TOP or b is TOP:
        return TOP
    if a == b:
        return a
    if a == BOT:
        return b
    if b == BOT:
        return a
    if a[0] == b[0] == 'v':
        return ('v', a[1] | b[1])
    if a[0] == b[0] == 'seq':
        e = join(a[1], b[1])
        return TOP if e is TOP else ('seq', e)
    if a[0] == b[0] == 'pair' and len(a[1]) == len(b[1]):
        return ('pair', tuple(join(x, y) for x, y in zip(a[1], b[1])))
    da, db = degrees(a), degrees(b)
    if da is None or db is None or 'fn' in (a[0], b[0]) or 'cls' in (a[0], b[0]):
        return TOP
    if 'seq' in (a[0], b[0]) or 'pair' in (a[0], b[0]):
        return TOP if (da | db) - {0} else ('v', da | db)
    return ('v', da | db)


CAP = 6


def capped(ds):
    """degrees beyond the cap are not told apart, so that a loop that multiplies up settles"""
    return frozenset(max(-CAP, min(CAP, d)) for d in ds)


def element(v):
    """what going through a value gives"""
    if v is TOP:
        return TOP
    if v[0] == 'seq':
        return v[1]
    if v[0] == 'pair':
        out = BOT
        for x in v[1]:
            out = join(out, x)
        return out
    if v[0] == 'v':
        return PLAIN
    return TOP


class Stop(Exception):
    pass


class Env(dict):
    outer = None


class Degree:
    """ops: {function: answer} for functions whose answer is given, not followed"""

    def __init__(self, program, eng, given=None, classes=None):
        self.p, self.eng, self.given = program, eng, given or {}
        self.memo, self.busy, self.depth = {}, {}, 0
        self.contrib = []        # (Func, node, degrees, in a loop over scaled terms)
        self.mixed = []          # (Func, node, degrees, degrees)
        self.scaled = []         # one bool per loop around
        self.followed = set()
        self.loops = {}          # id(loop over scaled terms) -> (Func, node)
        self.assigned = {}       # id(statement) -> (Func, node): a scaled value given to a plain variable
        self.ordered = {}        # id(comparison of a scaled value with < or >) -> (Func, node)
        self._slots = self._reach = None
        self.loop_base = False   # constants outside loops over scaled terms are not judged

    # -- calling --------------------------------------------------------------------
    def call_func(self, fn, args, kw, star=False):
        _, f, env, own = fn
        if f in self.given:
            return self.given[f]
        vals = list(args) + list(kw.values()) + ([own] if own is not None else [])
        plain = not star and all(v is not TOP and (degrees(v) in (frozenset(), frozenset([0]))) and v[0] not in ('fn',) for v in vals)
        if plain and not any(isinstance(g.node, FUNCS) for g in f.nested) and not isinstance(f.node, ast.Lambda) and env is None and not self.reaches(f):
            return PLAIN
        if self.depth > DEPTH:
            return TOP
        params = list(f.params())
        bound = Env()
        bound.outer = env
        if own is not None and f.cls is not None and f.parent is None and f.kind != 'staticmethod' and params:
            bound[params.pop(0)] = own
        for n, v in zip(params, args):
            bound[n] = v
        va = f.node.args.vararg
        if va is not None:
            rest = args[len(params):]
            e = BOT
            for v in rest:
                e = join(e, v)
            bound[va.arg] = TOP if e is TOP else ('seq', e)
        for k, v in kw.items():
            if k in f.all_params():
                bound[k] = v
        for n, d in f.defaults().items():
            if n not in bound:
                bound[n] = PLAIN if not (isinstance(d, ast.Constant) and d.value is None or isinstance(d, ast.Dict) and not d.keys) else BOT
        for n in f.all_params():
            bound.setdefault(n, TOP if star else PLAIN)
        key = (f.qual, tuple(sorted((k, repr(v)) for k, v in bound.items())), id(env))
        if key in self.busy:
            self.busy[key][1] = True
            return self.busy[key][0]
        if key in self.memo:
            return self.memo[key]
        self.followed.add(f.qual)
        self.depth += 1
        try:
            guess = BOT
            for _ in range(4):
                self.busy[key] = [guess, False]
                env2 = Env(bound)
                env2.outer = env
                out = self.run(f, env2)
                again = self.busy.pop(key)[1]
                if not again or out == guess:
                    break
                guess = join(guess, out)
            self.memo[key] = out
            return out
        finally:
            self.depth -= 1
            self.busy.pop(key, None)

    def reaches(self, f):
        """whether a function may lead to one whose answer is given (by the names it mentions)"""
        if not self.given:
            return False
        if self._reach is None:
            names = {}
            for g in self.p.funcs.values():
                for n in ast.walk(g.node):
                    if isinstance(n, (ast.Name, ast.Attribute)):
                        names.setdefault(n.id if isinstance(n, ast.Name) else n.attr, set()).add(g)
            todo, self._reach = list(self.given), set(self.given)
            while todo:
                for h in names.get(todo.pop().name, ()):
                    if h not in self._reach:
                        self._reach.add(h)
                        todo.append(h)
        return f in self._reach

    def run(self, f, env):
        if isinstance(f.node, ast.Lambda):
            return self.ev(f, env, f.node.body)
        saved, self.scaled = self.scaled, []
        fr = Frame(f)
        try:
            self.block(fr, env, f.node.body)
        finally:
            self.scaled = saved
        if f.is_generator():
            return TOP if fr.out is TOP else ('seq', fr.out)
        return fr.out

    # -- statements -----------------------------------------------------------------
    def block(self, fr, env, body):
        """the variables afterwards, or None when the end is not reached"""
        for s in body:
            env = self.stmt(fr, env, s)
            if env is None:
                return None
        return env

    def merge(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = Env()
        out.outer = a.outer
        for k in set(a) | set(b):
            out[k] = join(a[k], b[k]) if k in a and k in b else a.get(k, b.get(k))
        return out

    def copy(self, env):
        out = Env(env)
        out.outer = env.outer
        return out

    def stmt(self, fr, env, s):
        f = fr.func
        if isinstance(s, FUNCS):
            g = next((g for g in f.nested if g.node is s), None)
            v = ('fn', g, env, None) if g is not None else TOP
            for d in reversed(s.decorator_list):
                dv = self.ev(f, env, d)
                v = self.call_func(dv, [v], {}) if dv is not TOP and dv[0] == 'fn' and v is not TOP else TOP
            env[s.name] = v
        elif isinstance(s, ast.Assign):
            v = self.ev(f, env, s.value)
            for t in s.targets:
                self.store(fr, env, t, v, s)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.store(fr, env, s.target, self.ev(f, env, s.value), s)
        elif isinstance(s, ast.AugAssign):
            old = self.load(f, env, s.target)
            new = self.ev(f, env, s.value)
            additive = isinstance(s.op, (ast.Add, ast.Sub))
            if additive:
                self.note(f, s, new)
            v = self.arith(f, s, s.op, old, new)
            self.store(fr, env, s.target, v, s, quiet=True)
        elif isinstance(s, ast.Return):
            v = self.ev(f, env, s.value) if s.value is not None else BOT
            if not f.is_generator():
                fr.answer(s, v)
            return None
        elif isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Yield):
                fr.answer(s, self.ev(f, env, s.value.value) if s.value.value is not None else BOT)
            elif isinstance(s.value, ast.YieldFrom):
                fr.answer(s, element(self.ev(f, env, s.value.value)))
            else:
                self.ev(f, env, s.value, stmt_of=env)
        elif isinstance(s, ast.If):
            t = self.truth(f, env, s.test)
            self.ev(f, env, s.test)
            a = self.block(fr, self.copy(env), s.body) if t is not False else None
            b = self.block(fr, self.copy(env), s.orelse) if t is not True else None
            return self.merge(a, b)
        elif isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            return self.loop(fr, env, s)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(f, env, i.context_expr)
                if i.optional_vars is not None:
                    self.store(fr, env, i.optional_vars, v, s)
            return self.block(fr, env, s.body)
        elif isinstance(s, ast.Try):
            start = self.copy(env)
            a = self.block(fr, env, s.body)
            h = self.merge(start, self.copy(a) if a is not None else None)
            if a is not None:
                a = self.block(fr, a, s.orelse)
            for x in s.handlers:
                e2 = self.copy(h)
                if x.name:
                    e2[x.name] = PLAIN
                a = self.merge(a, self.block(fr, e2, x.body))
            if s.finalbody:
                if a is None:
                    self.block(fr, self.copy(h), s.finalbody)
                    return None
                a = self.block(fr, a, s.finalbody)
            return a
        elif isinstance(s, ast.Raise):
            return None
        elif isinstance(s, ast.Break):
            fr.breaks[-1] = self.merge(fr.breaks[-1], env)
            return None
        elif isinstance(s, ast.Continue):
            fr.nexts[-1] = self.merge(fr.nexts[-1], env)
            return None
        elif isinstance(s, (ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Pass, ast.Delete, ast.Assert)):
            pass
        elif isinstance(s, ast.Match):
            out = None
            for c in s.cases:
                e2 = self.copy(env)
                for n in ast.walk(c.pattern):
                    for a in ('name', 'rest'):
                        if getattr(n, a, None):
                            e2[getattr(n, a)] = TOP
                out = self.merge(out, self.block(fr, e2, c.body))
            return self.merge(out, env)
        return env

    def loop(self, fr, env, s):
        f = fr.func
        while_ = isinstance(s, ast.While)
        out = None
        forever = while_ and isinstance(s.test, ast.Constant) and s.test.value
        for _ in range(5):
            before = self.copy(env)
            body = self.copy(env)
            if while_:
                self.ev(f, body, s.test)
                self.scaled.append(False)
            else:
                it = self.ev(f, body, s.iter)
                e = element(it)
                self.store(fr, body, s.target, e, s, quiet=True)
                # terms: the thing gone through hands out coefficients, or stands for them
                self.scaled.append(self.is_scaled(it))
                if it is not TOP and self.scaled[-1]:
                    self.loops[id(s)] = (f, s)
            fr.breaks.append(None)
            fr.nexts.append(None)
            end = self.block(fr, body, s.body)
            end = self.merge(end, fr.nexts.pop())
            brk = fr.breaks.pop()
            self.scaled.pop()
            env = self.merge(before, end)
            out = self.merge(out, brk)
            if dict(env) == dict(before):
                break
        after = None if forever else self.block(fr, self.copy(env), s.orelse) if s.orelse else env
        return self.merge(after, out)

    def is_scaled(self, it):
        if it is TOP:
            return True
        d = degrees(it)
        return d is None or bool(d - {0})

    def store(self, fr, env, t, v, s, quiet=False):
        f = fr.func
        if isinstance(t, ast.Name):
            env[t.id] = v
            if not quiet and degrees(v) and degrees(v) - {0}:
                self.assigned[id(s)] = (f, s)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if v is not TOP and v[0] == 'pair' and len(v[1]) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                for x, y in zip(t.elts, v[1]):
                    self.store(fr, env, x, y, s, quiet)
            else:
                e = element(v)
                for x in t.elts:
                    x_v = e
                    if isinstance(x, ast.Starred):
                        x, x_v = x.value, (TOP if e is TOP else ('seq', e))
                    self.store(fr, env, x, x_v, s, quiet)
        elif isinstance(t, ast.Subscript):
            self.ev(f, env, t.slice)
            if not quiet:
                self.note(f, s, v)
            self.absorb(env, t.value, v)
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
            d = degrees(v)
            env[t.value.id] = TOP if d is None else ('v', d)

    def absorb(self, env, base, v):
        """a value goes into a collection"""
        while isinstance(base, (ast.Subscript, ast.Attribute)):
            base = base.value
        if isinstance(base, ast.Name):
            e = env
            while e is not None and base.id not in e:
                e = e.outer
            if e is None:
                return
            old, d = e[base.id], degrees(v)
            if old is TOP:
                return
            if d is None:
                e[base.id] = TOP
            elif old[0] == 'v':
                e[base.id] = ('v', (old[1] - {0} if old[1] == frozenset([0]) and False else old[1]) | d)
            elif old[0] == 'seq':
                j = join(old[1], v)
                e[base.id] = TOP if j is TOP else ('seq', j)
            else:
                e[base.id] = TOP

    def note(self, f, node, v):
        self.contrib.append((f, node, degrees(v), any(self.scaled)))

    # -- expressions ----------------------------------------------------------------
    def load(self, f, env, t):
        return self.ev(f, env, t)

    def truth(self, f, env, test):
        """the outcome of a test on the class of an operand, where it is known"""
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == 'isinstance' and len(test.args) == 2:
            a, names = test.args[0], test.args[1]
        elif isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Eq, ast.Is, ast.In)) \
                and isinstance(test.left, ast.Call) and isinstance(test.left.func, ast.Name) and test.left.func.id == 'type':
            a, names = test.left.args[0], test.comparators[0]
        elif isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], ast.Eq) and isinstance(test.comparators[0], ast.Constant) \
                and test.comparators[0].value not in (0, None) and isinstance(test.left, ast.Name):
            # one value of the operand on its own: nothing is known about scaling
            v = self.ev(f, env, test.left)
            return False if v is not TOP and v[0] == 'v' and v[1] - {0} else None
        else:
            return None
        v = self.ev(f, env, a)
        if v is TOP or v[0] != 'v' or not v[1] - {0}:
            return None
        names = names.elts if isinstance(names, (ast.Tuple, ast.List, ast.Set)) else [names]
        # a scaled operand is no key
        if all(isinstance(n, ast.Name) and n.id in ('tuple', 'str', 'list', 'SymmetricMonomial') for n in names):
            return False
        return None

    def name(self, f, env, n):
        e = env
        while e is not None:
            if n in e:
                return e[n]
            e = e.outer
        r = self.p.resolve_name(f.module, n)
        if isinstance(r, Func):
            return ('fn', r, None, None)
        if isinstance(r, Cls):
            return ('cls', r)
        if isinstance(r, tuple) and r[0] == 'global':
            return PLAIN
        return PLAIN if r is None or isinstance(r, (tuple, Module)) else TOP

    def arith(self, f, node, op, a, b):
        if isinstance(op, (ast.Add, ast.Sub)):
            if a is not TOP and b is not TOP and a[0] in ('pair', 'seq') and b[0] in ('pair', 'seq'):
                return join(('seq', element(a)), ('seq', element(b))) if element(a) is not TOP and element(b) is not TOP else TOP
            da, db = degrees(a), degrees(b)
            if da is None or db is None:
                return TOP
            if da and db and not da & db and self.judged(da | db):
                self.mixed.append((f, node, da, db))
            return ('v', da | db)
        da, db = degrees(a), degrees(b)
        if da is None or db is None:
            return TOP
        if isinstance(op, (ast.Mult, ast.MatMult)):
            if a[0] in ('seq', 'pair') or b[0] in ('seq', 'pair'):
                x = a if a[0] in ('seq', 'pair') else b
                e = element(x)
                return TOP if e is TOP else ('seq', e)
            return ('v', capped(x + y for x in da for y in db))
        if isinstance(op, (ast.Div, ast.FloorDiv)):
            return ('v', capped(x - y for x in da for y in db))
        if isinstance(op, ast.Mod):
            return ('v', da)
        if isinstance(op, ast.Pow):
            if da <= {0} and db <= {0}:
                return PLAIN if da else BOT
            right = node.value if isinstance(node, ast.AugAssign) else getattr(node, 'right', None)
            if db <= {0} and isinstance(right, ast.Constant) and type(right.value) == int:
                return ('v', capped(x * right.value for x in da))
            return TOP
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.BitXor)):
            return ('v', da | db) if not (da | db) - {0} else TOP
        return PLAIN if not (da | db) - {0} else TOP

    def judged(self, ds):
        return not self.loop_base or any(self.scaled)

    def ev(self, f, env, e, stmt_of=None):
        if isinstance(e, ast.Constant):
            return BOT if e.value is None or (type(e.value) in (int, float) and e.value == 0) else PLAIN
        if isinstance(e, ast.Name):
            return self.name(f, env, e.id)
        if isinstance(e, ast.Starred):
            return self.ev(f, env, e.value)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(f, env, e.value)
            env[e.target.id] = v
            return v
        if isinstance(e, ast.BinOp):
            return self.arith(f, e, e.op, self.ev(f, env, e.left), self.ev(f, env, e.right))
        if isinstance(e, ast.UnaryOp):
            v = self.ev(f, env, e.operand)
            return PLAIN if isinstance(e.op, ast.Not) else v
        if isinstance(e, ast.BoolOp):
            out = BOT
            for v in e.values:
                out = join(out, self.ev(f, env, v))
            return out
        if isinstance(e, ast.Compare):
            vals = [self.ev(f, env, x) for x in [e.left] + e.comparators]
            if any(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) for o in e.ops):
                ds = [degrees(v) for v in vals]
                if any(d and d - {0} for d in ds) and any(d is not None and not d - {0} for d in ds):
                    self.ordered[id(e)] = (f, e)
            return PLAIN
        if isinstance(e, ast.IfExp):
            t = self.truth(f, env, e.test)
            self.ev(f, env, e.test)
            if t is not None:
                return self.ev(f, env, e.body if t else e.orelse)
            return join(self.ev(f, env, e.body), self.ev(f, env, e.orelse))
        if isinstance(e, ast.Tuple):
            if any(isinstance(x, ast.Starred) for x in e.elts):
                out = BOT
                for x in e.elts:
                    v = self.ev(f, env, x)
                    out = join(out, element(v) if isinstance(x, ast.Starred) else v)
                return TOP if out is TOP else ('seq', out)
            return ('pair', tuple(self.ev(f, env, x) for x in e.elts)) if e.elts else PLAIN
        if isinstance(e, (ast.List, ast.Set)):
            out = BOT
            for x in e.elts:
                v = self.ev(f, env, x)
                out = join(out, element(v) if isinstance(x, ast.Starred) else v)
            return TOP if out is TOP else ('seq', out)
        if isinstance(e, ast.Dict):
            out = BOT
            for k, x in zip(e.keys, e.values):
                v = self.ev(f, env, x)
                if k is None:
                    d = degrees(v)
                    v = TOP if d is None else ('v', d)
                else:
                    kd = degrees(self.ev(f, env, k))
                    if kd and kd - {0}:
                        v = BOT          # the operand itself is the key: not the case that is linear
                d = degrees(v)
                out = join(out, TOP if d is None else ('v', d))
            return out
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            return self.comp(f, env, e)
        if isinstance(e, ast.Lambda):
            g = next((g for g in self.p.funcs.values() if g.node is e), None)
            return ('fn', g, env, None) if g is not None else TOP
        if isinstance(e, ast.Subscript):
            v = self.ev(f, env, e.value)
            self.ev(f, env, e.slice)
            if v is TOP:
                return TOP
            if v[0] == 'v':
                return v
            if isinstance(e.slice, ast.Slice):
                x = element(v)
                return TOP if x is TOP else ('seq', x)
            if v[0] == 'pair' and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and -len(v[1]) <= e.slice.value < len(v[1]):
                return v[1][e.slice.value]
            return element(v)
        if isinstance(e, ast.Slice):
            for x in (e.lower, e.upper, e.step):
                if x is not None:
                    self.ev(f, env, x)
            return PLAIN
        if isinstance(e, ast.Attribute):
            return self.attribute(f, env, e)
        if isinstance(e, ast.Call):
            return self.call(f, env, e)
        if isinstance(e, ast.JoinedStr):
            return PLAIN
        return TOP

    def comp(self, f, env, e):
        env2 = Env()
        env2.outer = env
        n = 0
        fr = Frame(f)
        for g in e.generators:
            it = self.ev(f, env2, g.iter)
            self.store(fr, env2, g.target, element(it), e, quiet=True)
            self.scaled.append(self.is_scaled(it))
            n += 1
            for c in g.ifs:
                self.ev(f, env2, c)
        if isinstance(e, ast.DictComp):
            kd = degrees(self.ev(f, env2, e.key))
            v = self.ev(f, env2, e.value)
            v = BOT if kd and kd - {0} else v
            self.note(f, e.value, v)
            d = degrees(v)
            out = TOP if d is None else ('v', d)
        else:
            v = self.ev(f, env2, e.elt)
            out = TOP if v is TOP else ('seq', v)
        del self.scaled[len(self.scaled) - n:]
        return out

    def attribute(self, f, env, e):
        base = self.ev(f, env, e.value)
        if base is TOP:
            return TOP
        if base[0] == 'cls':
            m = base[1].find(e.attr)
            if m is not None:
                return ('fn', m, None, base)
            return PLAIN
        if base[0] == 'v' and e.attr != '__class__':
            m = self.method(f, env, e, base)
            if m is not None and m.kind == 'property':
                return self.call_func(('fn', m, None, base), [], {})
            return base if e.attr in HOLDS or not base[1] - {0} else PLAIN
        return PLAIN if e.attr == '__class__' else TOP

    def method(self, f, env, e, base):
        """the method a call on a value goes to, where there is only one"""
        out = self.methods(f, e)
        return out[0] if len(out) == 1 else None

    def methods(self, f, e):
        if isinstance(e.value, ast.Name) and f.cls is not None and f.params() and e.value.id == f.params()[0] and f.kind != 'staticmethod':
            m = f.cls.find(e.attr)
            if m is not None:
                return [m]
        t = self.eng.types.get(e)
        out = set()
        for a in t or ():
            if a[0] == 'M' and a[1][0] == 'F' and a[1][1] in self.p.funcs:
                out.add(self.p.funcs[a[1][1]])
            elif a[0] == 'F' and a[1] in self.p.funcs:
                out.add(self.p.funcs[a[1]])
        return sorted(out, key=lambda g: g.qual)[:6]

    def call(self, f, env, e):
        star = any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords)
        args = [self.ev(f, env, a) for a in e.args]
        kw = {k.arg: self.ev(f, env, k.value) for k in e.keywords if k.arg}
        every = args + list(kw.values()) + [self.ev(f, env, k.value) for k in e.keywords if not k.arg]
        fn = e.func
        if isinstance(fn, ast.Attribute):
            base = self.ev(f, env, fn.value)
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super' and f.cls is not None:
                for c in f.cls.mro()[1:]:
                    if fn.attr in c.methods:
                        me = env.get(f.params()[0], PLAIN)
                        return self.call_func(('fn', c.methods[fn.attr], None, me), args, kw, star)
            if base is TOP:
                return TOP
            if base[0] in ('seq', 'pair'):
                return self.collection(env, fn, base, args)
            if base[0] == 'v':
                if fn.attr == '__class__':
                    return self.construct(f.cls, args, every)
                out = BOT
                ms = self.methods(f, fn)
                for m in ms:
                    me = ('cls', m.cls) if m.kind in ('classmethod', 'decorated') and m.cls is not None else base if m.kind != 'staticmethod' else None
                    out = join(out, self.call_func(('fn', m, None, me), args, kw, star))
                if ms:
                    return out
                if fn.attr in DUNDER and len(args) == 1:
                    return self.arith(f, e, DUNDER[fn.attr](), base, args[0])
                return self.collection(env, fn, base, args)
            if base[0] == 'cls':
                m = base[1].find(fn.attr)
                if m is not None:
                    if m.kind in ('method', 'property') and args:
                        return self.call_func(('fn', m, None, args[0]), args[1:], kw, star)
                    return self.call_func(('fn', m, None, base), args, kw, star)
                return self.free(every)
            return TOP
        if isinstance(fn, ast.Name) and fn.id in ('map', 'filter') and len(args) == 2 and not self.known(f, env, fn.id):
            if fn.id == 'filter':
                return args[1]
            x = element(args[1])
            v = self.call_func(args[0], [x], {}) if args[0] is not TOP and args[0][0] == 'fn' else self.free(every)
            return TOP if v is TOP else ('seq', v)
        if isinstance(fn, ast.Name) and not self.known(f, env, fn.id):
            return self.builtin(f, fn.id, args, every)
        v = self.ev(f, env, fn)
        if v is TOP:
            return TOP
        if v[0] == 'fn':
            return self.call_func(v, args, kw, star)
        if v[0] == 'cls':
            return self.construct(v[1], args, every)
        if v[0] == 'v':
            # self.__class__(...), type(self)(...), cls(...), a function handed in
            if isinstance(fn, ast.Attribute) or isinstance(fn, ast.Call):
                return self.construct(f.cls, args, every)
            return self.free(every) if not degrees(v) - {0} else TOP
        return TOP

    def slots(self):
        """the attributes that objects hold functions and the like in"""
        if self._slots is None:
            self._slots = {t.attr for g in self.p.funcs.values() for n in walk_own(g.node) if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Attribute)} - set(HOLDS)
        return self._slots

    def known(self, f, env, n):
        e = env
        while e is not None:
            if n in e:
                return True
            e = e.outer
        return self.p.resolve_name(f.module, n) is not None and not isinstance(self.p.resolve_name(f.module, n), tuple)

    def free(self, every):
        ds = [degrees(v) for v in every]
        return PLAIN if all(d is not None and not d - {0} for d in ds) else TOP

    def construct(self, c, args, every):
        if c is not None and any(x.name in LINEAR for x in c.mro()):
            if not args:
                return BOT
            d = degrees(args[0])
            return TOP if d is None else ('v', d)
        return self.free(every)

    def builtin(self, f, n, args, every):
        if n in FREE:
            return PLAIN
        if n == 'defaultdict' or n in ('dict', 'Counter', 'set', 'list', 'tuple') and not args:
            return BOT if n in ('defaultdict', 'dict', 'Counter') and len(args) < 2 and not (n != 'defaultdict' and args) else ('seq', BOT)
        if n in SAME and args:
            v = args[0]
            if v is not TOP and v[0] == 'v' and n in ('list', 'tuple', 'sorted', 'reversed', 'iter', 'set', 'frozenset'):
                return ('seq', PLAIN)
            if v is not TOP and v[0] == 'pair' and n != 'tuple':
                x = element(v)
                return TOP if x is TOP else ('seq', x)
            return v
        if n in ('sum',) and args:
            x = element(args[0])
            d = degrees(x)
            return TOP if d is None else ('v', d)
        if n in ('max', 'min', 'next') and args:
            if len(args) == 1:
                return element(args[0])
            out = BOT
            for a in args:
                out = join(out, a)
            return out
        if n == 'enumerate' and args:
            x = element(args[0])
            return TOP if x is TOP else ('seq', ('pair', (PLAIN, x)))
        if n == 'zip':
            es = [element(a) for a in args]
            return TOP if any(x is TOP for x in es) else ('seq', ('pair', tuple(es)))
        return self.free(every)

    def collection(self, env, fn, base, args):
        n = fn.attr
        if n == 'items' and base[0] == 'v':
            return ('seq', ('pair', (PLAIN, base)))
        if n == 'values' and base[0] == 'v':
            return ('seq', base)
        if n == 'keys':
            return PLAIN
        if n in ('get', 'pop', 'setdefault') and base[0] == 'v':
            return join(base, args[1]) if len(args) > 1 else base
        if n in ('copy',):
            return base
        if n in ('pop',):
            return element(base)
        if n in ('append', 'add', 'extend', 'update', 'insert', 'appendleft') and args:
            v = args[-1]
            if n in ('extend', 'update') and base[0] == 'seq':
                v = element(v)
            if v is TOP:
                d = None
            self.absorb(env, fn.value, v)
            return BOT
        if base[0] == 'v' and (not base[1] - {0} or n in self.slots()):
            return self.free(args)
        if n in ('degree', 'join', 'index', 'count', 'clear', 'remove', 'discard', 'sort', 'reverse'):
            return PLAIN
        return TOP


class Frame:
    def __init__(self, func):
        self.func, self.out, self.breaks, self.nexts, self.returns = func, BOT, [], [], []

    def answer(self, node, v):
        self.returns.append((node, v))
        self.out = join(self.out, v)
