"""Which power of the receiver a __pow__ method answers, branch by branch.

A value is a power of the receiver, its exponent a linear form in n (the number asked for) and
h = n // 2; or a number, itself such a form.  Forms are dicts {'n': .., 'h': .., '': ..}.
"""
import ast

from .forms import branches


def lin(**k):
    return {x: c for x, c in k.items() if c}


def num(c):
    return {'': c} if c else {}


def plus(a, b, k=1):
    if a is None or b is None:
        return None
    out = dict(a)
    for x, c in b.items():
        out[x] = out.get(x, 0) + k * c
    return {x: c for x, c in out.items() if c}


def times(a, b):
    if a is None or b is None:
        return None
    for x, y in ((a, b), (b, a)):
        if set(x) <= {''}:
            k = x.get('', 0)
            return {v: c * k for v, c in y.items() if c * k}
    return None


def settle(e, facts):
    """the form where n is known, or its parity"""
    if e is None:
        return None
    out = dict(e)
    if 'n' in facts:
        out[''] = out.get('', 0) + out.pop('n', 0) * facts['n'] + out.pop('h', 0) * (facts['n'] // 2)
    elif 'parity' in facts:
        k = out.pop('n', 0)
        out['h'] = out.get('h', 0) + 2 * k
        out[''] = out.get('', 0) + k * facts['parity']
    return {x: c for x, c in out.items() if c}


class Powers:
    def __init__(self, func):
        ps = func.params()
        self.name = func.node.name
        self.answers = []
        self.block(func.node.body, {ps[0]: ('pow', num(1)), ps[1]: ('num', lin(n=1))}, {})

    def block(self, body, env, facts):
        for i, s in enumerate(body):
            if isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, ast.IfExp):
                s = branches(s)
            if isinstance(s, ast.Return):
                v = self.ev(env, s.value) if s.value is not None else None
                if s.value is not None and not (isinstance(s.value, ast.Constant) and s.value.value is None):
                    self.answers.append((s, v[1] if v and v[0] == 'pow' else None, dict(facts)))
                return False
            if isinstance(s, ast.Raise):
                return False
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                env[s.targets[0].id] = self.ev(env, s.value)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) \
                    and len(s.targets[0].elts) == len(s.value.elts) and all(isinstance(t, ast.Name) for t in s.targets[0].elts):
                for t, v in zip(s.targets[0].elts, [self.ev(env, x) for x in s.value.elts]):
                    env[t.id] = v
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                env[s.target.id] = self.arith(s.op, env.get(s.target.id), self.ev(env, s.value))
            elif isinstance(s, ast.If):
                t, e = self.facts(env, s.test)
                for branch, more in ((s.body, t), (s.orelse, e)):
                    env2, f2 = dict(env), dict(facts, **more)
                    if self.block(branch, env2, f2):
                        self.block(body[i + 1:], env2, f2)
                return False
            elif isinstance(s, ast.For):
                self.loop(env, s)
            elif isinstance(s, (ast.Assert, ast.Pass, ast.Expr, ast.Import, ast.ImportFrom)):
                pass
            else:
                self.forget(env, s)
                for n in ast.walk(s):
                    if isinstance(n, ast.Return):
                        self.answers.append((n, None, dict(facts)))
        return True

    def forget(self, env, s):
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                env[n.id] = None

    def loop(self, env, s):
        it = s.iter
        count = None
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and len(it.args) in (1, 2):
            ends = [self.ev(env, a) for a in it.args]
            if all(e and e[0] == 'num' for e in ends):
                count = ends[0][1] if len(ends) == 1 else plus(ends[1][1], ends[0][1], -1)
        one = s.body[0] if len(s.body) == 1 else None
        if count is not None and not s.orelse:
            name = val = None
            if isinstance(one, ast.AugAssign) and isinstance(one.target, ast.Name):
                name, val = one.target.id, lambda e: self.arith(one.op, e.get(one.target.id), self.ev(e, one.value))
            elif isinstance(one, ast.Assign) and len(one.targets) == 1 and isinstance(one.targets[0], ast.Name):
                name, val = one.targets[0].id, lambda e: self.ev(e, one.value)
            if name is not None:
                old = env.get(name)
                inner = dict(env)
                for n in ast.walk(s.target):
                    if isinstance(n, ast.Name):
                        inner[n.id] = None
                new = val(inner)
                if old and new and old[0] == new[0] == 'pow':
                    # the step must be a constant: not growing with what is being built
                    inner[name] = ('pow', plus(old[1], num(7)))
                    again = val(inner)
                    step = plus(new[1], old[1], -1)
                    if again and plus(plus(again[1], old[1], -1), num(7), -1) == step:
                        grown = times(step, count)
                        env[name] = ('pow', plus(old[1], grown)) if grown is not None else None
                        return
        self.forget(env, s)

    def facts(self, env, test):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            a, b = self.facts(env, test.operand)
            return b, a
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            a, b = self.ev(env, test.left), self.ev(env, test.comparators[0])
            op = test.ops[0]
            if isinstance(op, (ast.Eq, ast.NotEq)) and a and b and a[0] == b[0] == 'num' and set(b[1]) <= {''}:
                yes, no = {}, {}
                k = b[1].get('', 0)
                if a[1] == {'n': 1}:
                    yes = {'n': k}
                elif a[1] == {'parity': 1} and k in (0, 1):
                    yes, no = {'parity': k}, {'parity': 1 - k}
                return (yes, no) if isinstance(op, ast.Eq) else (no, yes)
            return {}, {}
        v = self.ev(env, test)
        if v and v[0] == 'num' and v[1] == {'n': 1}:
            return {}, {'n': 0}
        if v and v[0] == 'num' and v[1] == {'parity': 1}:
            return {'parity': 1}, {'parity': 0}
        return {}, {}

    def arith(self, op, a, b):
        if not a or not b:
            return None
        if a[0] == b[0] == 'pow':
            return ('pow', plus(a[1], b[1])) if isinstance(op, ast.Mult) else None
        if a[0] == 'pow' and b[0] == 'num' and isinstance(op, ast.Pow):
            e = times(a[1], b[1])
            return ('pow', e) if e is not None else None
        if a[0] == b[0] == 'num':
            if isinstance(op, ast.Add):
                return ('num', plus(a[1], b[1]))
            if isinstance(op, ast.Sub):
                return ('num', plus(a[1], b[1], -1))
            if isinstance(op, ast.Mult):
                e = times(a[1], b[1])
                return ('num', e) if e is not None else None
            if a[1] == {'n': 1} and isinstance(op, ast.FloorDiv) and b[1] == num(2) or a[1] == {'n': 1} and isinstance(op, ast.RShift) and b[1] == num(1):
                return ('num', {'h': 1})
            if a[1] == {'n': 1} and isinstance(op, ast.Mod) and b[1] == num(2) or a[1] == {'n': 1} and isinstance(op, ast.BitAnd) and b[1] == num(1):
                return ('num', {'parity': 1})
        return None

    def ev(self, env, e):
        if isinstance(e, ast.Constant) and type(e.value) is int:
            return ('num', num(e.value))
        if isinstance(e, ast.Name):
            return env.get(e.id)
        if isinstance(e, ast.BinOp):
            return self.arith(e.op, self.ev(env, e.left), self.ev(env, e.right))
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            v = self.ev(env, e.operand)
            return ('num', times(v[1], num(-1))) if v and v[0] == 'num' else None
        if isinstance(e, ast.Call):
            fn = e.func
            name = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, 'id', None)
            if name in ('one', 'identity') or name == 'monomial' and len(e.args) == 2 and isinstance(e.args[1], ast.Constant) and e.args[1].value == 0:
                return ('pow', {})
            if isinstance(fn, ast.Attribute):
                v = self.ev(env, fn.value)
                if v and v[0] == 'pow':
                    if name == 'inverse' and not e.args:
                        return ('pow', times(v[1], num(-1)))
                    if name in ('__pow__', '__mul__') and len(e.args) == 1:
                        return self.arith(ast.Pow() if name == '__pow__' else ast.Mult(), v, self.ev(env, e.args[0]))
                    if name == 'copy' and not e.args:
                        return v
            # self.order() is the order of the ring's monomials, not a unit: SymmetricMonomial(n) is one
            if name == 'SymmetricMonomial' and len(e.args) == 1:
                return ('pow', {})
            if name in ('Permutation',) and len(e.args) == 1 and isinstance(e.args[0], ast.Starred) and isinstance(e.args[0].value, ast.Attribute):
                return self.ev(env, e.args[0].value.value)
            if name == 'abs':
                return None
        if isinstance(e, ast.IfExp):
            a, b = self.ev(env, e.body), self.ev(env, e.orelse)
            return a if a == b else None
        return None
