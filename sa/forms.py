"""What an arithmetic method answers, as a form in its two operands.

A form is a sum of words in S (the receiver) and O (the other operand) with integer coefficients;
() is the number one.  None stands for "not known".  Arithmetic on the way means what it says: the
methods it goes to are judged on their own.
"""
import ast

from .flow import FUNCS
from .program import Cls

S, O = (('S',), 1), (('O',), 1)
HOLDS = ('coeffs', 'dictionary', 'vector')
SCALAR = {'int', 'Polynomial'}
CALLS = {'__add__': lambda a, b: add(a, b), '__radd__': lambda a, b: add(b, a), '__sub__': lambda a, b: add(a, scale(b, -1)),
         '__rsub__': lambda a, b: add(b, scale(a, -1)), '__mul__': lambda a, b: mul(a, b), '__rmul__': lambda a, b: mul(b, a)}


def form(*items):
    return frozenset((w, c) for w, c in items if c)


def add(a, b):
    if a is None or b is None:
        return None
    d = dict(a)
    for w, c in b:
        d[w] = d.get(w, 0) + c
    return form(*d.items())


def scale(a, k):
    return None if a is None else form(*((w, c * k) for w, c in a))


def mul(a, b):
    if a is None or b is None:
        return None
    d = {}
    for v, c in a:
        for w, e in b:
            d[v + w] = d.get(v + w, 0) + c * e
    return form(*d.items())


def simplify(a, facts, commuting):
    """the form where an operand is known to be a number, or operands commute"""
    d = {}
    for w, c in a:
        out = []
        for x in w:
            if x in facts:
                c *= facts[x]
            else:
                out.append(x)
        w = tuple(sorted(out)) if commuting or facts.get('type') == 'scalar' else tuple(out)
        d[w] = d.get(w, 0) + c
    return form(*d.items())


def text(a):
    out = []
    for w, c in sorted(a, key=lambda t: (len(t[0]), t[0] and t[0][0] == 'O', t[0])):
        word = '*'.join({'S': 'self', 'O': 'other'}[x] for x in w) or '1'
        out.append(('- ' if c < 0 else '+ ') + ('' if abs(c) == 1 else '%d*' % abs(c)) + word)
    t = ' '.join(out) or '0'
    return t[2:] if t.startswith('+ ') else t


def branches(s):
    """`return a if t else b` as an if statement, and likewise for an assignment"""
    make = lambda v: ast.copy_location(ast.Return(value=v) if isinstance(s, ast.Return) else ast.Assign(targets=s.targets, value=v), s)
    return ast.copy_location(ast.If(test=s.value.test, body=[make(s.value.body)], orelse=[make(s.value.orelse)]), s)


class Forms:
    def __init__(self, program, func, base):
        self.p, self.f, self.base = program, func, base
        self.answers = []     # (return node, form or None, facts)
        self.bare = []        # nodes where a number may be added as it is to something that takes none
        self.holding = {}     # the facts that hold where the walk is
        self.exponents = []   # (node, form): exponents of the products of two terms
        self.uneven = []      # products of terms that are put in differently in different cases
        self.dropped = []     # comprehensions that leave out entries for what they are
        self.missing = []     # (node, operand): terms only this operand has are left out
        ps = func.params()
        env = {ps[0]: form(S)}
        self.other = ps[1] if len(ps) > 1 else None
        if len(ps) > 1:
            env[ps[1]] = form(O)
        self.block(func.node.body, env, {})

    def block(self, body, env, facts):
        for i, s in enumerate(body):
            if isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, ast.IfExp):
                s = branches(s)
            self.holding = facts
            if isinstance(s, ast.Return):
                self.answers.append((s, self.ev(env, s.value) if s.value is not None else None, dict(facts)))
                return False
            if isinstance(s, ast.Raise):
                return False
            if isinstance(s, ast.Assign):
                v = self.ev(env, s.value)
                for t in s.targets:
                    self.store(env, t, v, s)
            elif isinstance(s, ast.AugAssign):
                if isinstance(s.target, ast.Name):
                    keys, more = env.pop(('keys', s.target.id), None), self.support(env, s.value)
                    if keys is not None and more is not None and isinstance(s.op, ast.BitOr):
                        env[('keys', s.target.id)] = keys | more
                    env[s.target.id] = self.arith(s.op, env.get(s.target.id), self.ev(env, s.value))
                else:
                    self.forget(env, s)
            elif isinstance(s, ast.If):
                t, e = self.facts(env, s.test)
                rest = body[i + 1:]
                for branch, more in ((s.body, t), (s.orelse, e)):
                    if more is None:
                        continue
                    env2, f2 = dict(env), self.joined(facts, more)
                    if f2 is None:
                        continue
                    if self.block(branch, env2, f2):
                        self.block(rest, env2, f2)
                return False
            elif isinstance(s, ast.For):
                self.loop(env, s)
            elif isinstance(s, (ast.Assert, ast.Pass, ast.Expr, ast.Delete, ast.Import, ast.ImportFrom)):
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name):
                    name, call = s.value.func.value.id, s.value
                    keys = env.pop(('keys', name), None)
                    more = [self.support(env, a) for a in call.args]
                    if keys is not None and call.func.attr == 'update' and None not in more:
                        env[('keys', name)] = keys.union(*more)
                    env[name] = None
            elif isinstance(s, FUNCS):
                env[s.name] = None
            else:
                self.forget(env, s)
                for n in ast.walk(s):
                    if isinstance(n, ast.Return):
                        self.answers.append((n, None, dict(facts)))
        return True

    def forget(self, env, s):
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                env[n.id] = None
                env.pop(('keys', n.id), None)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and ('keys', n.func.value.id) in env:
                env.pop(('keys', n.func.value.id), None)
            elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                env[n.value.id] = None

    def nest(self, env, s):
        """loops within loops, which put one product after another into a table; False where that is not what they do"""
        loops, inner, over = [], dict(env), frozenset()
        keys_of = dict(env)        # the two terms gone through, and what is made of them
        body = [s]
        while len([x for x in body if isinstance(x, ast.For)]) == 1 and not any(isinstance(x, (ast.If, ast.While, ast.Try, ast.With)) for x in body):
            for x in body:
                if isinstance(x, ast.For):
                    break
                if not isinstance(x, ast.Assign):
                    return False
                v = self.ev(inner, x.value)
                for t in x.targets:
                    self.store(inner, t, v, x)
            loops.append(x)
            keys = self.support(inner, x.iter)
            names = [n.id for n in ast.walk(x.target) if isinstance(n, ast.Name)]
            for n in names:
                inner[n] = keys_of[n] = None
            if keys:
                over |= keys
                if len(keys) == 1 and names:
                    keys_of[names[0]] = form(((next(iter(keys)),), 1))
                if isinstance(x.target, ast.Tuple) and len(x.target.elts) == 2 and isinstance(x.target.elts[1], ast.Name):
                    inner[x.target.elts[1].id] = self.ev(inner, x.iter.func.value) if isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Attribute) and x.iter.func.attr == 'items' else None
            elif isinstance(x.target, ast.Tuple) and len(x.target.elts) == 2 and isinstance(x.target.elts[1], ast.Name):
                # a coefficient of the product of two terms
                inner[x.target.elts[1].id] = form(((), 1))
            body = x.body
        if len(loops) < 2 or not over or any(x.orelse for x in loops):
            return False
        puts = []

        def gather(block):
            for x in block:
                if isinstance(x, ast.If):
                    if not gather(x.body) or not gather(x.orelse):
                        return False
                elif isinstance(x, (ast.Assign, ast.AugAssign)):
                    t = x.targets[0] if isinstance(x, ast.Assign) else x.target
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                        puts.append((t.value.id, x))
                    elif isinstance(x, ast.Assign):
                        v, k = self.ev(inner, x.value), self.ev(keys_of, x.value)
                        for t in x.targets:
                            self.store(inner, t, v, x)
                            self.store(keys_of, t, k, x)
                    else:
                        return False
                elif isinstance(x, ast.Expr) or not isinstance(x, (ast.Delete, ast.Pass, ast.Assert)):
                    return False
            return True
        if not gather(body) or len({a for a, _ in puts}) != 1:
            return False
        acc = puts[0][0]
        for _, x in puts:
            k = self.ev(keys_of, (x.targets[0] if isinstance(x, ast.Assign) else x.target).slice)
            if k is not None and self.base == 'Polynomial':
                self.exponents.append((x, k))
        if env.get(acc) != form():
            return False
        inner[acc] = form()
        vals = set()
        for _, x in puts:
            v = self.ev(inner, x.value)
            if isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Sub):
                v = scale(v, -1)
            elif isinstance(x, ast.AugAssign) and not isinstance(x.op, ast.Add):
                v = None
            vals.add(v)
        if None in vals:
            return False
        if len(vals) > 1:
            self.uneven.append(puts[0][1])
        new = sorted(vals, key=text)[0]
        if not new or any(set(w) - over for w, _ in new):
            return False
        self.forget(env, s)
        env[acc] = new
        return True

    def loop(self, env, s):
        if self.nest(env, s):
            return
        over = self.support(env, s.iter)
        one = s.body[0] if s.body else None
        if isinstance(s.target, ast.Name) and isinstance(one, ast.Assign) and len(one.targets) == 1 and isinstance(one.targets[0], ast.Subscript) \
                and isinstance(one.targets[0].value, ast.Name) and isinstance(one.targets[0].slice, ast.Name) and one.targets[0].slice.id == s.target.id:
            acc = one.targets[0].value.id
            rest = [n for x in s.body[1:] for n in ast.walk(x) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) or isinstance(n, ast.AugAssign)]
            new, old = self.ev(env, one.value), env.get(acc)
            if new is not None and old is not None and over is not None and not rest:
                # elsewhere the operands gone through have nothing
                left = simplify(new, {x: 0 for x in over}, False)
                if not old:
                    self.cover(one, new, over)
                    env[acc] = new
                    return
                if left == old:
                    env[acc] = new
                    return
                extra = {w for w, _ in left} ^ {w for w, _ in old}
                env[acc] = new if not extra else None
                return
        self.forget(env, s)

    def cover(self, node, new, over):
        for w, c in new:
            if w and not set(w) & over:
                self.missing.append((node, w[0]))

    def support(self, env, e):
        """the operands all of whose keys are gone through"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('keys', 'items', 'copy', 'values') and not e.args:
            return self.support(env, e.func.value)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('set', 'list', 'sorted', 'tuple', 'dict', 'frozenset') and len(e.args) == 1:
            return self.support(env, e.args[0])
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'union':
            parts = [self.support(env, x) for x in [e.func.value] + e.args]
            return None if None in parts else frozenset().union(*parts)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            a, b = self.support(env, e.left), self.support(env, e.right)
            return None if a is None or b is None else a | b
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitAnd):
            a, b = self.support(env, e.left), self.support(env, e.right)
            return None if a is None or b is None else a & b
        if isinstance(e, ast.Set) or isinstance(e, (ast.List, ast.Tuple)):
            parts = [self.support(env, x.value) if isinstance(x, ast.Starred) else frozenset() for x in e.elts]
            return None if None in parts else frozenset().union(*parts)
        if isinstance(e, ast.Attribute) and e.attr in HOLDS:
            return self.support(env, e.value)
        if isinstance(e, ast.Name):
            k = ('keys', e.id)
            if k in env:
                return env[k]
        v = self.ev(env, e)
        if v is not None and len(v) == 1 and len(next(iter(v))[0]) == 1:
            return frozenset(next(iter(v))[0])
        return None

    def store(self, env, t, v, s):
        if isinstance(t, ast.Name):
            keys = self.support(env, s.value) if v is None else None
            env.pop(('keys', t.id), None)
            if keys is not None:
                env[('keys', t.id)] = keys
            env[t.id] = v
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.attr in HOLDS:
            env[t.value.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(t.elts) == len(s.value.elts):
            vals = [self.ev(env, x) for x in s.value.elts]
            for x, y in zip(t.elts, vals):
                if isinstance(x, ast.Name):
                    env[x.id] = y
        else:
            for n in ast.walk(t):
                if isinstance(n, ast.Name):
                    env[n.id] = None

    def facts(self, env, test):
        """what holds of the operands in the two branches (None: the branch is not taken)"""
        if isinstance(test, ast.Constant):
            return ({}, None) if test.value else (None, {})
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            a, b = self.facts(env, test.operand)
            return b, a
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            left, right, op = test.left, test.comparators[0], test.ops[0]
            if isinstance(op, (ast.Eq, ast.NotEq, ast.Is)):
                v = self.ev(env, left)
                k = self.ev(env, right)
                if v is not None and len(v) == 1 and next(iter(v))[1] == 1 and len(next(iter(v))[0]) == 1 and k is not None and all(w == () for w, _ in k):
                    x = next(iter(v))[0][0]
                    yes = {x: sum(c for _, c in k)}
                    return ({}, yes) if isinstance(op, ast.NotEq) else (yes, {})
            if isinstance(left, ast.Call) and isinstance(left.func, ast.Name) and left.func.id == 'type' and len(left.args) == 1:
                return self.of_type(env, left.args[0], right, isinstance(op, (ast.NotEq, ast.NotIn, ast.IsNot)))
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == 'isinstance' and len(test.args) == 2:
            return self.of_type(env, test.args[0], test.args[1], False)
        return {}, {}

    def of_type(self, env, e, names, negated):
        v = self.ev(env, e)
        if v != form(O):
            return {}, {}
        names = names.elts if isinstance(names, (ast.List, ast.Tuple, ast.Set)) else [names]
        ids = {n.id for n in names if isinstance(n, ast.Name)}
        if len(ids) != len(names):
            return {}, {}
        yes, no = {'is': ids}, {'not': ids}
        return (no, yes) if negated else (yes, no)

    def joined(self, facts, more):
        """the facts of a branch along with those it is in; None where they cannot hold together"""
        out = dict(facts, **{k: v for k, v in more.items() if k not in ('is', 'not')})
        if 'is' in more:
            out['is'] = facts['is'] & more['is'] if 'is' in facts else more['is']
        if 'not' in more:
            out['not'] = facts.get('not', set()) | more['not']
        kept = out['is'] - out.get('not', set()) if 'is' in out else None
        if kept is not None and not kept:
            return None
        # what is not one of these is a number, which commutes with everything
        if kept is not None and kept <= SCALAR or kept is None and self.base in out.get('not', set()):
            out['type'] = 'scalar'
        return out

    def arith(self, op, a, b):
        if isinstance(op, ast.Add):
            return add(a, b)
        if isinstance(op, ast.Sub):
            return add(a, scale(b, -1))
        if isinstance(op, ast.Mult):
            return mul(a, b)
        return None

    def numberless(self, e):
        """an expression for something that adds to its own kind only"""
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
            return self.numberless(e.left) or self.numberless(e.right)
        if isinstance(e, ast.UnaryOp):
            return self.numberless(e.operand)
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'symmetric_polynomial'

    def may_be_number(self):
        if 'is' in self.holding:
            return 'int' in self.holding['is'] - self.holding.get('not', set())
        return 'int' not in self.holding.get('not', set())

    def unit(self, e):
        """a call that makes the number one of a ring"""
        if not isinstance(e, ast.Call):
            return False
        n = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, 'id', None)
        if n == 'one' and not e.args:
            return True
        if n == 'monomial' and len(e.args) == 2 and isinstance(e.args[1], ast.Constant) and e.args[1].value == 0:
            return True
        return n in ('BoxOperator', 'SymmetricMonomial') and len(e.args) == 1 and not e.keywords and \
            (n == 'SymmetricMonomial' or isinstance(e.args[0], ast.Constant) and e.args[0].value == 0)

    def linear(self, env, fn):
        """whether a call makes a vector, polynomial or the like out of a dict"""
        if isinstance(fn, ast.Attribute):
            return fn.attr == '__class__'
        if isinstance(fn, ast.Call):
            return isinstance(fn.func, ast.Name) and fn.func.id == 'type'
        r = self.p.resolve_name(self.f.module, fn.id) if isinstance(fn, ast.Name) else None
        return isinstance(r, Cls) and any(c.name in ('Vector', 'Polynomial') for c in r.mro())

    def ev(self, env, e):
        if isinstance(e, ast.Constant):
            return form(((), e.value)) if type(e.value) is int else None
        if isinstance(e, ast.Name):
            return env.get(e.id)
        if isinstance(e, ast.BinOp):
            a, b = self.ev(env, e.left), self.ev(env, e.right)
            if isinstance(e.op, (ast.Add, ast.Sub)):
                for x, y, v in ((e.left, e.right, b), (e.right, e.left, a)):
                    if self.numberless(x) and not self.numberless(y) and v and all(w == ('O',) for w, _ in v) and self.may_be_number():
                        self.bare.append(e)
            return self.arith(e.op, a, b)
        if isinstance(e, ast.UnaryOp):
            v = self.ev(env, e.operand)
            return scale(v, -1) if isinstance(e.op, ast.USub) else v if isinstance(e.op, ast.UAdd) else None
        if isinstance(e, ast.IfExp):
            t, f = self.facts(env, e.test)
            a = self.ev(env, e.body) if t is not None else None
            b = self.ev(env, e.orelse) if f is not None else None
            return a if a == b or f is None else b if t is None else None
        if isinstance(e, ast.Attribute):
            return self.ev(env, e.value) if e.attr in HOLDS else None
        if isinstance(e, ast.Subscript):
            return self.ev(env, e.value)
        if isinstance(e, ast.Dict):
            if not e.keys:
                return form()
            return self.ev(env, e.values[0]) if len(e.keys) == 1 and e.keys[0] is not None and not self.ev(env, e.keys[0]) else None
        if isinstance(e, ast.DictComp) and len(e.generators) == 1:
            g = e.generators[0]
            env2 = dict(env)
            over = self.support(env, g.iter)
            if isinstance(g.target, ast.Tuple) and len(g.target.elts) == 2 and isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Attribute) and g.iter.func.attr == 'items':
                if isinstance(g.target.elts[1], ast.Name):
                    env2[g.target.elts[1].id] = self.ev(env, g.iter.func.value)
                key = g.target.elts[0]
            else:
                key = g.target
            for c in g.ifs:
                if isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.comparators[0], ast.Constant) and c.comparators[0].value == 0:
                    if isinstance(c.ops[0], ast.NotEq):
                        continue
                    if isinstance(c.ops[0], (ast.Gt, ast.GtE, ast.Lt, ast.LtE)) and self.ev(env2, c.left) is not None:
                        self.dropped.append(e)
                        continue
                if isinstance(c, (ast.Name, ast.Subscript)):
                    continue
                more = self.support(env, c.comparators[0]) if isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], ast.In) else None
                if more is None or over is None:
                    return None
                over = over & more
            v = self.ev(env2, e.value)
            if v is None or over is None or not isinstance(key, ast.Name) or not isinstance(e.key, ast.Name) or e.key.id != key.id:
                return None
            self.cover(e, v, over)
            return v
        if isinstance(e, ast.Call):
            if self.unit(e):
                return form(((), 1))
            fn = e.func
            if isinstance(fn, ast.Attribute):
                base = self.ev(env, fn.value)
                if base is None and self.unit(fn.value):
                    base = form(((), 1))
                if fn.attr in CALLS and len(e.args) == 1:
                    return CALLS[fn.attr](base, self.ev(env, e.args[0]))
                if fn.attr == '__neg__':
                    return scale(base, -1)
                if fn.attr in ('copy',) and not e.args:
                    return base
                if fn.attr == 'get' and e.args:
                    return base
                if fn.attr == 'lower' and not e.args and base == form(O):
                    return base
                if fn.attr == 'symmetric_polynomial':
                    return mul(base, self.ev(env, e.args[0])) if e.args else base
                if fn.attr == 'base' and len(e.args) == 1:
                    return self.ev(env, e.args[0])
            if self.linear(env, fn):
                return self.ev(env, e.args[0]) if e.args else form()
            if isinstance(fn, ast.Name) and fn.id in ('dict', 'HashableDict') and len(e.args) <= 1:
                return self.ev(env, e.args[0]) if e.args else form()
            if isinstance(fn, ast.Name) and fn.id == 'defaultdict':
                return form()
            if isinstance(fn, ast.Name) and fn.id == self.base and not e.args:
                return form()
            if isinstance(fn, ast.Name) and fn.id == self.base == 'BoxOperator' and len(e.args) == 2 and isinstance(e.args[0], ast.Constant) and e.args[0].value == 0 \
                    and [n.id for n in ast.walk(e.args[1]) if isinstance(n, ast.Name) and env.get(n.id) is not None] == [self.other]:
                # an operator named by the other operand, a text
                return form(O)
        return None
