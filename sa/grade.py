"""Powers of beta and signs of the terms of a symmetric function, as linear forms.

A function of shapes mu / nu is followed through its calls.  What is kept of a value:
  ('f', p, q)    (-1)**p * beta**q times something free of beta and of that sign; p and q are linear
                 forms in sizes of shapes, lengths of words and D, the degree of the term it belongs to
  ('num', l)     a number equal to the linear form l
  ('obj', name)  something gone through or given: a shape, a word, a monomial
  ('elems', l)   a sequence whose elements are the linear form l (('el', name): elements of a shape)
  'plain'        anything else that has nothing to do with beta
  'zero'         an empty sum or table
  ('const', c)   None, True, False, a string
  ('fn', Func, owner), ('cls', Cls)
  None           not known
"""
import ast

from .forms import branches
from .program import Cls, Func

D = 'D'
HOLDS = ('dictionary', 'vector', 'coeffs')
FOLLOW = ('symmetric', 'permutations', 'partitions', 'utils')
COPIES = ('dict', 'SymmetricPolynomial', 'Vector', 'list', 'tuple', 'sorted', 'set', 'defaultdict', 'reversed')
DEPTH = 14


def lin(d):
    return {k: v for k, v in d.items() if v}


def plus(a, b, k=1):
    out = dict(a)
    for x, c in b.items():
        out[x] = out.get(x, 0) + k * c
    return lin(out)


def scaled(a, k):
    return lin({x: c * k for x, c in a.items()})


def const(a):
    """the number a form is, or None"""
    return a.get('', 0) if set(a) <= {''} else None


def product(a, b):
    for x, y in ((a, b), (b, a)):
        k = const(x)
        if k is not None:
            return scaled(y, k)
    return None


def mod2(a):
    return {x: 1 for x, c in a.items() if c % 2}


def power(p=None, q=None):
    return ('f', mod2(p or {}), lin(q or {}))


def swap(a, old, new):
    """the form with one atom replaced by a form"""
    if old not in a:
        return a
    c = a[old]
    return plus({x: v for x, v in a.items() if x != old}, new, c)


def kind(v):
    return v[0] if isinstance(v, tuple) else v


def same(v, w):
    """what two alternatives have in common"""
    if v == w:
        return v
    for a, b in ((v, w), (w, v)):
        if kind(a) == 'zero' or a == ('num', {}):
            if kind(b) in ('f', 'plain', 'zero', 'nest'):
                return b
            if kind(b) == 'num' and any(isinstance(x, tuple) and x[0] == 'el' for x in b[1]):
                return b
    if {kind(v), kind(w)} <= {'plain', 'num', 'obj', 'elems', 'const'}:
        return 'plain'
    return None


def free(v):
    return v in ('plain', 'zero') or kind(v) in ('num', 'obj', 'elems', 'const', 'fn', 'cls')


def describe(a):
    def atom(x):
        if x == D:
            return 'degree'
        if isinstance(x, tuple):
            n = str(x[-1]).split('#')[0]
            return {'sum': '|%s|', 'len': 'len(%s)', 'prop': '%s', 'total': 'total of %s'}.get(x[0], '%s') % n
        return str(x)
    parts = []
    for x, c in sorted(a.items(), key=lambda t: (t[0] != D, t[0] == '', str(t[0]))):
        parts.append(('- ' if c < 0 else '+ ') + (str(abs(c)) if x == '' else ('' if abs(c) == 1 else '%d*' % abs(c)) + atom(x)))
    t = ' '.join(parts) or '0'
    return t[2:] if t.startswith('+ ') else t


class Frame:
    def __init__(self, func, env, outer=None):
        self.func, self.env, self.outer, self.returns = func, env, outer, []
        self.empty = frozenset()      # what is known to be empty
        self.apart = False            # whether alternatives are followed one by one


class Grade:
    def __init__(self, program):
        self.p = program
        self.fresh = 0
        self.busy = []
        self.mixed = []      # (Func, node, one form, another)
        self.memo = {}
        self.about = set()   # functions visited
        self._tainted = None

    # -- which functions may bring beta in ------------------------------------------------
    def tainted(self, f):
        if self._tainted is None:
            direct, calls = set(), {}
            for g in self.p.funcs.values():
                names = set()
                for n in ast.walk(g.node):
                    if isinstance(n, ast.Name):
                        names.add(n.id)
                    elif isinstance(n, ast.Attribute):
                        names.add(n.attr)
                calls[g] = names
                if names & {'BETA', 'beta'} or any(isinstance(n, ast.Call) and self.is_beta(n) for n in ast.walk(g.node)):
                    direct.add(g)
            bad = {g.name for g in direct}
            grew = True
            while grew:
                grew = False
                for g, names in calls.items():
                    if g.name not in bad and g.module.name in FOLLOW and names & bad and not g.name.startswith('__'):
                        bad.add(g.name)
                        grew = True
            self._tainted = bad
        return f.name in self._tainted

    def is_beta(self, e):
        fn = e.func
        n = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, 'id', None)
        return n in ('X', 'x') and len(e.args) == 1 and isinstance(e.args[0], ast.Constant) and e.args[0].value == 0

    def new(self, name):
        self.fresh += 1
        return ('obj', '%s#%d' % (name, self.fresh))

    # -- running a function -----------------------------------------------------------------
    def call(self, func, args, kwargs, first):
        """the value of a call; args without the receiver"""
        a = func.node.args
        if a.vararg or a.kwarg:
            return None
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if first is not None:
            if not names:
                return None
            env[names.pop(0)] = first
        if len(args) > len(names):
            return None
        for n, v in zip(names, args):
            env[n] = v
        for n, v in kwargs.items():
            env[n] = v
        fr = Frame(func, env)
        ps = [x.arg for x in a.posonlyargs + a.args]
        for x, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
            if x not in env:
                env[x] = self.ev(fr, d)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env:
                env[x.arg] = self.ev(fr, d) if d is not None else None
        return self.run(func, env)

    def run(self, func, env, each=False):
        key = (func.qual, repr(sorted((k, repr(v)) for k, v in env.items())))
        if not each and key in self.memo:
            return self.memo[key]
        if func.qual in self.busy or len(self.busy) > DEPTH:
            return None
        self.about.add(func.qual)
        self.busy.append(func.qual)
        fr = Frame(func, env)
        fr.apart = each
        self.forks = 0
        self.block(fr, func.node.body)
        self.busy.pop()
        if each:
            return [x if len(x) == 3 else x + (frozenset(),) for x in fr.returns]
        v = None
        if fr.returns:
            v = fr.returns[0][1]
            for _, w in fr.returns[1:]:
                v = same(v, w)
        self.memo[key] = v
        return v

    def block(self, fr, body):
        """False where nothing goes on after it"""
        for at, s in enumerate(body):
            if fr.apart and isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, ast.IfExp) and self.truth(fr, s.value.test) is None:
                s = branches(s)
            if isinstance(s, ast.Return):
                v = self.ev(fr, s.value) if s.value is not None else ('const', None)
                fr.returns.append((s, v, fr.empty) if fr.apart else (s, v))
                return False
            if isinstance(s, (ast.Raise, ast.Continue, ast.Break)):
                return False
            if isinstance(s, ast.Assign):
                v = self.ev(fr, s.value)
                for t in s.targets:
                    self.store(fr, t, v, s.value)
            elif isinstance(s, ast.AnnAssign) and s.value is not None:
                self.store(fr, s.target, self.ev(fr, s.value), s.value)
            elif isinstance(s, ast.AugAssign):
                v = self.ev(fr, s.value)
                if isinstance(s.target, ast.Name):
                    fr.env[s.target.id] = self.arith(fr, s.op, self.ev(fr, ast.Name(id=s.target.id, ctx=ast.Load())), v, s)
                elif isinstance(s.target, ast.Subscript):
                    self.put(fr, s.target, v, s, isinstance(s.op, (ast.Add, ast.Sub)))
            elif isinstance(s, ast.If):
                t = self.truth(fr, s.test)
                if t is not None:
                    if not self.block(fr, s.body if t else s.orelse):
                        return False
                    continue
                if fr.apart and self.forks < 24:
                    self.forks += 1
                    yes, no = self.emptiness(fr, s.test)
                    for branch, empty in ((s.body, yes), (s.orelse, no)):
                        fr2 = Frame(fr.func, dict(fr.env), fr.outer)
                        fr2.returns, fr2.apart, fr2.empty = fr.returns, True, fr.empty | empty
                        self.block(fr2, list(branch) + list(body[at + 1:]))
                    return False
                before = dict(fr.env)
                on1 = self.block(fr, s.body)
                env1, fr.env = fr.env, before
                on2 = self.block(fr, s.orelse)
                if on1 and on2:
                    fr.env = {k: same(env1[k], fr.env[k]) for k in env1.keys() & fr.env.keys()}
                elif on1:
                    fr.env = env1
                elif not on2:
                    return False
            elif isinstance(s, ast.For):
                apart, fr.apart = fr.apart, False
                self.loop(fr, s)
                fr.apart = apart
            elif isinstance(s, ast.While):
                self.forget(fr, s)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                g = next((x for x in fr.func.nested if x.node is s), None)
                fr.env[s.name] = ('fn', g, fr) if g is not None else None
            elif isinstance(s, ast.Try):
                self.forget(fr, s)
                for n in ast.walk(s):
                    if isinstance(n, ast.Return):
                        fr.returns.append((n, None, frozenset()) if fr.apart else (n, None))
            elif isinstance(s, ast.With):
                if not self.block(fr, s.body):
                    return False
            elif isinstance(s, ast.Expr):
                c = s.value
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name):
                    n = c.func.value.id
                    got = [self.ev(fr, a) for a in c.args]
                    if n in fr.env and not all(free(v) for v in got):
                        v = got[0] if len(got) == 1 and c.func.attr in ('append', 'update', 'add', 'extend') else None
                        fr.env[n] = same(fr.env[n], v)
                    elif n in fr.env and fr.env[n] == 'zero':
                        fr.env[n] = 'plain'
        return True

    def emptiness(self, fr, test):
        """what is empty where a test holds, and where it does not"""
        none = frozenset()
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            a, b = self.emptiness(fr, test.operand)
            return b, a
        e, negated = test, False
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            right = test.comparators[0]
            if isinstance(right, ast.Constant) and right.value == 0 or isinstance(right, ast.Tuple) and not right.elts:
                e = test.left
                if isinstance(test.ops[0], ast.Eq):
                    negated = True
                elif not isinstance(test.ops[0], (ast.NotEq, ast.Gt)):
                    return none, none
            else:
                return none, none
        v = self.ev(fr, e)
        name = v[1] if kind(v) == 'obj' else None
        if kind(v) == 'num' and len(v[1]) == 1:
            x = next(iter(v[1]))
            name = x[1] if isinstance(x, tuple) and x[0] in ('sum', 'len') else None
        if name is None:
            return none, none
        return (frozenset([name]), none) if negated else (none, frozenset([name]))

    def forget(self, fr, s):
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                fr.env[n.id] = None
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                fr.env[n.value.id] = None

    def bind(self, fr, target, it):
        """bind loop variables; returns how often the loop goes round, if known"""
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and it.args and isinstance(target, ast.Tuple) and len(target.elts) == 2:
            self.store(fr, target.elts[0], 'plain', None)
            self.bind(fr, target.elts[1], it.args[0])
            return None
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range':
            ends = [self.ev(fr, a) for a in it.args]
            if isinstance(target, ast.Name):
                fr.env[target.id] = ('num', {('idx', ast.unparse(it) if not all(kind(e) == 'num' for e in ends) else str([sorted((str(k), c) for k, c in e[1].items()) for e in ends])): 1})
            if all(kind(e) == 'num' for e in ends):
                return ends[0][1] if len(ends) == 1 else plus(ends[1][1], ends[0][1], -1) if len(ends) == 2 else None
            return None
        items = isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'items'
        over = self.ev(fr, it.func.value if items else it)
        if items and isinstance(target, (ast.Tuple, ast.List)) and len(target.elts) == 2 and isinstance(target.elts[0], ast.Name):
            k = self.new(target.elts[0].id)
            fr.env[target.elts[0].id] = k
            self.store(fr, target.elts[1], self.at(over, k), None)
            return None
        values = isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'values'
        if values:
            self.store(fr, target, 'plain' if free(over) else None, None)
            return None
        # going through a table or a sequence gives its keys or elements, which have no beta in them
        for n in ast.walk(target):
            if isinstance(n, ast.Name):
                fr.env[n.id] = self.new(n.id) if over is not None else self.new(n.id)
        return None

    def loop(self, fr, s):
        before = dict(fr.env)
        count = self.bind(fr, s.target, s.iter)
        start = dict(fr.env)
        self.block(fr, s.body)
        targets = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        for k in list(fr.env):
            if k in targets or k not in before:
                continue
            v, w = before[k], fr.env[k]
            if v == w:
                continue
            j = same(v, w)
            if j is None and kind(v) in ('f', 'num', 'plain') and kind(w) == 'f' and count is not None:
                v2 = v if kind(v) == 'f' else power()
                step = (plus(w[1], v2[1], -1), plus(w[2], v2[2], -1))
                # once more round has to go on by the same step
                fr2 = Frame(fr.func, dict(start, **{k: w}))
                self.block(fr2, s.body)
                again = fr2.env.get(k)
                if kind(again) == 'f' and plus(again[2], w[2], -1) == step[1] and mod2(plus(again[1], w[1], -1)) == mod2(step[0]):
                    dp, dq = product(step[0], count), product(step[1], count)
                    if dp is not None and dq is not None:
                        j = power(plus(v2[1], dp), plus(v2[2], dq))
            elif kind(v) == 'num' and kind(w) == 'num' and j == 'plain':
                j = None
                step = plus(w[1], v[1], -1)
                grown = self.total(step)
                if grown is not None:
                    j = ('num', plus(v[1], grown))
                elif const(step) is not None and count is not None:
                    j = ('num', plus(v[1], scaled(count, const(step))))
                else:
                    j = 'plain'
            elif kind(j) == 'f' and kind(v) in ('zero',) and k in before:
                # a first round started from nothing: a second one must add terms alike
                pass
            fr.env[k] = j
        self.block(fr, s.orelse)

    def total(self, step):
        """what elements of shapes add up to over a loop through them"""
        if step and all(isinstance(x, tuple) and x[0] in ('part',) for x in step):
            return {('sum', x[1]): c for x, c in step.items()}
        return None

    def store(self, fr, t, v, value):
        if isinstance(t, ast.Name):
            fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            same_len = isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts)
            vals = [self.ev(fr, x) for x in value.elts] if same_len else [self.new('part') if kind(v) in ('obj', 'plain') else 'plain' if v is not None and free(v) else None] * len(t.elts)
            for x, y in zip(t.elts, vals):
                self.store(fr, x, y, None)
        elif isinstance(t, ast.Subscript):
            self.put(fr, t, v, t, False)

    def size(self, v):
        if kind(v) == 'obj':
            return {('sum', v[1]): 1}
        if kind(v) == 'key':
            return v[1]
        if kind(v) == 'elems':
            return self.summed(v[1])
        return None

    def keyed(self, key, v):
        """a value as the value of a term: its degree is that of the key"""
        if kind(v) != 'f':
            return v
        s = self.size(key)
        if s is not None and len(s) == 1 and list(s.values()) == [1]:
            a = next(iter(s))
            if a != '':
                return ('f', swap(v[1], a, {D: 1}), swap(v[2], a, {D: 1}))
        return v

    def at(self, v, key):
        """the value a table has for a key"""
        if kind(v) == 'nest':
            return v[1]
        if kind(v) == 'f':
            s = self.size(key)
            if D in v[1] or D in v[2]:
                return ('f', mod2(swap(v[1], D, s)), swap(v[2], D, s)) if s is not None else None
            return v
        if v == 'zero':
            return 'plain'
        return 'plain' if v is not None and free(v) else None

    def put(self, fr, t, v, node, adds):
        if not isinstance(t.value, ast.Name):
            return
        n = t.value.id
        key = self.ev(fr, t.slice)
        old = fr.env.get(n)
        if kind(v) == 'f' and (D in v[1] or D in v[2]) and kind(key) != 'key':
            # a table of functions
            new = ('nest', v)
            fr.env[n] = new if old in ('zero', 'plain', new) or old == new else None
            return
        v = self.keyed(key, v)
        if old == 'zero':
            fr.env[n] = v if v is not None and (kind(v) == 'f') else 'plain' if v is not None and free(v) else None
        else:
            fr.env[n] = same(old, v) if kind(v) == 'f' else old if v is not None and free(v) and kind(old) != 'f' else None

    # -- expressions ------------------------------------------------------------------------
    def truth(self, fr, e):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t = self.truth(fr, e.operand)
            return None if t is None else not t
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
            v = self.ev(fr, e.left)
            t = True if v == ('const', None) else False if kind(v) in ('f', 'num', 'fn', 'cls') or kind(v) == 'const' else None
            return t if t is None or isinstance(e.ops[0], (ast.Is, ast.Eq)) else not t
        if isinstance(e, ast.Name):
            v = fr.env.get(e.id)
            if kind(v) == 'const':
                return bool(v[1])
            if kind(v) == 'f' and D not in v[1] and D not in v[2]:
                return True
        if isinstance(e, ast.Constant):
            return bool(e.value)
        return None

    def summed(self, l):
        out = {}
        for x, c in l.items():
            k = ('sum', x[1]) if isinstance(x, tuple) and x[0] == 'el' else ('total', x if x != '' else 'ones')
            out[k] = out.get(k, 0) + c
        return lin(out)

    def arith(self, fr, op, a, b, node):
        if a is None or b is None:
            return None
        ka, kb = kind(a), kind(b)
        if isinstance(op, (ast.Add, ast.Sub)):
            if ka == 'num' and kb == 'num':
                return ('num', plus(a[1], b[1], -1 if isinstance(op, ast.Sub) else 1))
            if ka in ('nest',) or kb in ('nest',):
                return same(a, b)
            if isinstance(op, ast.Sub) and kb == 'f':
                b = ('f', mod2(plus(b[1], {'': 1})), b[2])
            empty = lambda v: v == 'zero' or v == ('num', {})
            if empty(a):
                return b
            if empty(b):
                return a
            if ka == 'f' or kb == 'f':
                x, y = (v if kind(v) == 'f' else power() for v in (a, b))
                if x == y:
                    return x
                if D in x[2] and D in y[2] and ka == kb == 'f':
                    self.mixed.append((fr.func, node, x, y))
                return None
            return 'plain'
        if isinstance(op, ast.Mult):
            if ka == 'num' and kb == 'num':
                m = product(a[1], b[1])
                return ('num', m) if m is not None else 'plain'
            for x, y in ((a, b), (b, a)):
                if kind(x) == 'ident':
                    if kind(y) == 'f':
                        return ('f', swap(y[1], x[1], {D: 1}), swap(y[2], x[1], {D: 1}))
                    return x if free(y) else None
            if 'nest' in (ka, kb):
                return None
            fs = []
            for v in (a, b):
                if kind(v) == 'f':
                    fs.append(v)
                elif kind(v) == 'num' and const(v[1]) is not None:
                    if const(v[1]) == 0:
                        return 'zero'
                    fs.append(power({'': 1} if const(v[1]) < 0 else {}))
                elif v == 'zero':
                    return 'zero'
            if 'f' not in (ka, kb):
                return 'plain'
            return power(*[plus(fs[0][i], fs[1][i]) if len(fs) == 2 else fs[0][i] for i in (1, 2)])
        if isinstance(op, ast.Pow):
            if kb != 'num':
                return 'plain' if free(a) and free(b) else None
            if ka == 'num':
                k = const(a[1])
                if k is not None and const(b[1]) is not None and const(b[1]) >= 0:
                    return ('num', {'': k ** min(const(b[1]), 60)} if k else {})
                if k == -1:
                    return power(b[1])
                return 'plain'
            if ka == 'f':
                p, q = product(a[1], b[1]), product(a[2], b[1])
                return power(p, q) if p is not None and q is not None else None
            return 'plain'
        if isinstance(op, (ast.FloorDiv, ast.Div, ast.Mod)):
            return 'plain' if free(a) and free(b) else a if ka == 'f' and free(b) and isinstance(op, ast.FloorDiv) else None
        return 'plain' if free(a) and free(b) else None

    def comp(self, fr, gens):
        fr2 = Frame(fr.func, dict(fr.env), fr.outer)
        fr2.returns = []
        for g in gens:
            self.bind(fr2, g.target, g.iter)
        return fr2

    def ev(self, fr, e):
        if isinstance(e, ast.Constant):
            return ('num', {'': e.value} if e.value else {}) if type(e.value) is int else ('const', e.value)
        if isinstance(e, ast.Name):
            f = fr
            while f is not None:
                if e.id in f.env:
                    return f.env[e.id]
                f = f.outer
            return self.thing(fr.func.module, e.id)
        if isinstance(e, ast.BinOp):
            return self.arith(fr, e.op, self.ev(fr, e.left), self.ev(fr, e.right), e)
        if isinstance(e, ast.UnaryOp):
            v = self.ev(fr, e.operand)
            if isinstance(e.op, ast.USub):
                if kind(v) == 'num':
                    return ('num', scaled(v[1], -1))
                if kind(v) == 'f':
                    return power(plus(v[1], {'': 1}), v[2])
            return v if v is None or kind(v) in ('f', 'num') else 'plain'
        if isinstance(e, ast.IfExp):
            t = self.truth(fr, e.test)
            if t is not None:
                return self.ev(fr, e.body if t else e.orelse)
            return same(self.ev(fr, e.body), self.ev(fr, e.orelse))
        if isinstance(e, (ast.GeneratorExp, ast.ListComp, ast.SetComp)):
            fr2 = self.comp(fr, e.generators)
            v = self.ev(fr2, e.elt)
            return ('elems', v[1]) if kind(v) == 'num' else ('each', v) if kind(v) in ('f', 'ident') else 'plain' if v is not None and free(v) else None
        if isinstance(e, ast.DictComp):
            fr2 = self.comp(fr, e.generators)
            k, v = self.ev(fr2, e.key), self.ev(fr2, e.value)
            if kind(v) == 'f' and (D in v[1] or D in v[2]):
                return ('nest', v)
            v = self.keyed(k, v)
            return v if kind(v) == 'f' else 'plain' if v is not None and free(v) else None
        if isinstance(e, ast.Dict):
            if not e.keys:
                return 'zero'
            if len(e.keys) == 1 and e.keys[0] is not None:
                v = self.keyed(self.ev(fr, e.keys[0]), self.ev(fr, e.values[0]))
                return v if kind(v) == 'f' else 'plain' if v is not None and free(v) else None
            return None
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            if not e.elts:
                return 'zero'
            vals = [self.ev(fr, x) for x in e.elts]
            return 'plain' if all(v is not None and free(v) for v in vals) else None
        if isinstance(e, ast.Attribute):
            v = self.ev(fr, e.value)
            if kind(v) == 'cls':
                m = v[1].find(e.attr)
                return ('fn', m, v) if m is not None else 'plain'
            if kind(v) == 'self':
                m = v[1].find(e.attr)
                if m is not None and m.kind == 'property':
                    return ('num', {('prop', e.attr): 1})
                return ('fn', m, v) if m is not None else ('num', {('prop', e.attr): 1})
            if e.attr in HOLDS:
                return v
            if kind(v) == 'obj':
                return v if e.attr == 'mu' else 'plain'
            return 'plain'
        if isinstance(e, ast.Subscript):
            v, k = self.ev(fr, e.value), None if isinstance(e.slice, ast.Slice) else self.ev(fr, e.slice)
            if kind(v) == 'obj':
                return ('num', {('el', v[1]): 1}) if kind(k) == 'num' else self.new('slice') if isinstance(e.slice, ast.Slice) else 'plain'
            return self.at(v, k)
        if isinstance(e, ast.Call):
            return self.ev_call(fr, e)
        if isinstance(e, ast.Lambda):
            return None
        if isinstance(e, (ast.Compare, ast.BoolOp, ast.JoinedStr)):
            return 'plain'
        return None

    def thing(self, module, n, depth=0):
        if n in ('BETA',):
            return power({}, {'': 1})
        r = self.p.resolve_name(module, n)
        if isinstance(r, Func):
            return ('fn', r, None)
        if isinstance(r, Cls):
            return ('cls', r)
        if isinstance(r, tuple) and r[0] == 'global' and depth < 5:
            m = self.p.modules[r[1]]
            vals = m.assigns[r[2]]
            if len(vals) == 1 and isinstance(vals[0], ast.Call) and self.is_beta(vals[0]):
                return power({}, {'': 1})
            if len(vals) == 1 and isinstance(vals[0], ast.Name):
                return self.thing(m, vals[0].id, depth + 1)
        return 'plain'

    def ev_call(self, fr, e):
        fn = e.func
        name = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, 'id', None)
        if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
            return None
        if self.is_beta(e):
            return power({}, {'': 1})
        target = self.ev(fr, fn)
        args = [self.ev(fr, a) for a in e.args]
        kwargs = {k.arg: self.ev(fr, k.value) for k in e.keywords}
        every = args + list(kwargs.values())
        if isinstance(fn, ast.Name) and kind(target) != 'fn':
            if name == 'sum' and args:
                v = args[0]
                if kind(v) == 'obj':
                    return ('num', {('sum', v[1]): 1})
                if kind(v) == 'elems':
                    return ('num', self.summed(v[1]))
                if kind(v) == 'each':
                    return v[1]
                return 'plain' if v is not None and free(v) else None
            if name == 'len' and len(args) == 1:
                return ('num', {('len', args[0][1]): 1}) if kind(args[0]) == 'obj' else ('num', {('prop', 'length'): 1}) if kind(args[0]) == 'self' else 'plain'
            if name == 'SymmetricMonomial' and len(args) == 2:
                s = self.size(args[1])
                return ('key', s) if s is not None else 'plain'
            if name in COPIES:
                if name == 'defaultdict':
                    return 'zero'
                if not args:
                    return 'zero'
                return args[0]
            if name in ('max', 'min', 'abs', 'int', 'range', 'str', 'print', 'zip', 'map', 'filter', 'all', 'any', 'next', 'iter', 'enumerate', 'repr', 'type', 'isinstance', 'frozenset'):
                return 'plain' if all(v is not None and free(v) for v in every) else None
        if name == 'monomial' and args and args[0] == ('num', {}):
            if len(args) == 1:
                return power({}, {'': 1})
            return power({}, args[1][1]) if kind(args[1]) == 'num' else None
        if kind(target) == 'cls':
            if target[1].name == 'Polynomial':
                return None if args else 'zero'
            if target[1].name in ('Vector', 'SymmetricPolynomial'):
                return args[0] if args else 'zero'
            return 'plain' if all(v is not None and (free(v) or kind(v) == 'key') for v in every) else None
        if kind(target) == 'fn':
            g, owner = target[1], target[2]
            if name in ('zero',) and g.cls is not None:
                return 'zero'
            if name == 'quasisymmetrize' and args and kind(args[0]) == 'obj':
                return ('ident', ('len', args[0][1]))
            if name == '_symmetrize' and args:
                return args[0]
            if isinstance(owner, Frame):
                env = {}
                ps = g.params()
                if len(args) > len(ps):
                    return None
                env.update(zip(ps, args))
                env.update(kwargs)
                return self.run_nested(g, env, owner)
            # a call that has no beta to work with, and is not about sizes, is not followed
            if g.module.name in FOLLOW and not g.is_generator() and (g.cls is None or g.cls.name in ('SymmetricPolynomial', 'Permutation', 'Partition')):
                first = None
                if g.cls is not None:
                    k = g.kind
                    if k != "staticmethod":
                        first = owner if owner is not None else ('cls', g.cls)
                if len(self.busy) <= DEPTH and g.qual not in self.busy:
                    v = self.call(g, args, kwargs, first)
                    if v is not None:
                        return v
            if not self.tainted(g) and all(v is not None and free(v) for v in every):
                return 'plain'
            return None
        if isinstance(fn, ast.Attribute):
            recv = self.ev(fr, fn.value)
            if name == 'substitute' and len(args) == 2 and kind(recv) == 'f' and args[0] == ('num', {}) and kind(args[1]) == 'f':
                a, b = const(args[1][1]), const(args[1][2])
                if a is not None and b is not None:
                    return power(plus(recv[1], scaled(recv[2], a)), scaled(recv[2], b))
                return None
            if kind(recv) == 'obj':
                if name == 'degree' and not args:
                    return ('num', {('sum', recv[1]): 1})
                if name in ('index', 'copy') and not args:
                    return recv
                if name == 'weight':
                    return self.new('weight')
            if name in ('items', 'keys', 'copy') and not args:
                return recv
            if name == 'get' and args:
                return self.at(recv, args[0])
            if name in ('truncate',):
                return recv
            if recv is not None and free(recv) and all(v is not None and free(v) for v in every):
                return 'plain'
            return None
        return 'plain' if target is not None and free(target) and all(v is not None and free(v) for v in every) else None

    def run_nested(self, g, env, owner):
        if g.qual in self.busy or len(self.busy) > DEPTH:
            return None
        self.busy.append(g.qual)
        fr = Frame(g, env, owner)
        self.block(fr, g.node.body)
        self.busy.pop()
        v = fr.returns[0][1] if fr.returns else None
        for _, w in fr.returns[1:]:
            v = same(v, w)
        return v
