"""Paths through a function, with the facts its tests establish.

Loops are followed for no, one and two rounds.  A state is (facts, set): the set is whatever a client keeps on the way.
"""
import ast

from .facts import assume, forget
from .flow import FUNCS

LIMIT = 12         # states kept at one place
BUDGET = 1500      # steps in one function before states are merged everywhere


def touched(s):
    """names assigned, or possibly changed in place, by a statement"""
    out = set()
    for n in ast.walk(s):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out |= {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            out |= {x.id for x in ast.walk(n.func.value) if isinstance(x, ast.Name)}
    return out


class Paths:
    def __init__(self, f):
        self.f = f
        self.loops = []
        self.steps = 0
        self.ending(self.block(f.node.body, [({}, self.start())]))

    # ---- what clients override
    def start(self):
        return frozenset()

    def reads(self, e, st):
        """an expression or simple statement is evaluated in a state; -> the set afterwards"""
        return st[1]

    def returns(self, s, st):
        pass

    def ending(self, states):
        pass

    def widen(self, sets):
        return frozenset().union(*sets)

    # ---- the walk
    def block(self, stmts, live):
        for s in stmts:
            nxt = []
            for st in live:
                nxt += self.step(s, st)
            self.steps += len(nxt)
            live = self.merge(nxt)
            if not live:
                break
        return live

    def merge(self, live):
        out = []
        for st in live:
            if st not in out:
                out.append(st)
        if len(out) > (LIMIT if self.steps < BUDGET else 1):
            common = {k: v for k, v in out[0][0].items() if all(fa.get(k) == v for fa, _ in out)}
            return [(common, self.widen([x for _, x in out]))]
        return out

    def test(self, t, st, value):
        """state after the test came out as value: a list of one or no state"""
        fa = assume(st[0], t, value)
        return [] if fa is None else [(fa, st[1])]

    def rounds(self, s, heads, body, after):
        """no, one and two rounds of a loop: after(state) are the states that leave at the head, body(state) those in the body"""
        out = []
        self.loops.append(([], []))
        for turn in range(3):
            nxt = []
            for st in heads:
                out += after(st, turn)
                if turn < 2:
                    nxt += self.block(s.body, body(st, turn))
            nxt += self.loops[-1][1]
            del self.loops[-1][1][:]
            heads = self.merge(nxt)
        brk, _ = self.loops.pop()
        return self.merge(self.block(s.orelse, self.merge(out)) + brk if s.orelse else out + brk)

    def step(self, s, st):
        if isinstance(s, ast.Return):
            if s.value is not None:
                st = (st[0], self.reads(s.value, st))
            self.returns(s, st)
            return []
        if isinstance(s, ast.Raise):
            self.reads(s, st)
            return []
        if isinstance(s, ast.Break):
            self.loops[-1][0].append(st)
            return []
        if isinstance(s, ast.Continue):
            self.loops[-1][1].append(st)
            return []
        if isinstance(s, ast.If):
            st = (forget(st[0], touched(s.test)), self.reads(s.test, st))
            return self.block(s.body, self.test(s.test, st, True)) + self.block(s.orelse, self.test(s.test, st, False))
        if isinstance(s, ast.Assert):
            st = (st[0], self.reads(s.test, st))
            return self.test(s.test, st, True)
        if isinstance(s, ast.While):
            def look(st):
                return (forget(st[0], touched(s.test)), self.reads(s.test, st))
            return self.rounds(s, [st], lambda x, turn: self.test(s.test, look(x), True), lambda x, turn: self.test(s.test, look(x), False))
        if isinstance(s, (ast.For, ast.AsyncFor)):
            st = (forget(st[0], touched(s.iter)), self.reads(s.iter, st))
            names = touched(s.target)

            def enter(x, turn):
                return [(counted(forget(x[0], names), s.target, s.iter, turn), self.reads(s.target, x))]

            def leave(x, turn):
                return [] if endless(s.iter) else nothing(s.iter, x) if turn == 0 else [x]
            return self.rounds(s, [st], enter, leave)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                st = (st[0], self.reads(i, st))
            return self.block(s.body, [st])
        if isinstance(s, ast.Try):
            caught = [(forget(st[0], set().union(*map(touched, s.body))), st[1])]
            out = self.block(s.orelse, self.block(s.body, [st]))
            for h in s.handlers:
                out = out + self.block(h.body, [(fa, self.named(h, x)) for fa, x in caught])
            return self.block(s.finalbody, out) if s.finalbody else out
        if isinstance(s, ast.Match):
            st = (st[0], self.reads(s.subject, st))
            out = []
            for c in s.cases:
                out += self.block(c.body, [(forget(st[0], touched(c.pattern)), self.reads(c.pattern, st))])
            if not any(c.guard is None and isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None for c in s.cases):
                out.append(st)
            return out
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ('exit', 'quit'):
            return []
        seen = self.reads(s, st)
        if isinstance(s, FUNCS + (ast.ClassDef, ast.Pass, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom)):
            return [(st[0], seen)]
        fa = forget(st[0], touched(s))
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    fa = known(fa, t, s.value)
        return [(fa, seen)]

    def named(self, h, x):
        return x | {h.name} if h.name else x


def known(fa, name, value):
    """facts after name = constant"""
    name = ast.Name(name.id, ast.Load())
    if value.value is None:
        new = assume(fa, ast.Compare(name, [ast.Is()], [value]), True)
    elif isinstance(value.value, (bool, str)):
        new = assume(fa, name, bool(value.value))
    elif isinstance(value.value, int):
        new = assume(fa, ast.Compare(name, [ast.Eq()], [value]), True)
        new = new and assume(new, name, bool(value.value))
    else:
        new = fa
    return fa if new is None else new


def counted(fa, target, e, turn):
    """facts about a counting variable in the first round of a loop and in later ones"""
    if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and not e.keywords):
        return fa
    start = None
    if e.func.id == 'range' and len(e.args) in (1, 2):
        start = ast.Constant(0) if len(e.args) == 1 else e.args[0]
    elif e.func.id == 'enumerate' and isinstance(target, ast.Tuple):
        target, start = target.elts[0], ast.Constant(0) if len(e.args) == 1 else e.args[1]
    if start is None or not isinstance(target, ast.Name) or target.id in {x.id for x in ast.walk(start) if isinstance(x, ast.Name)}:
        return fa
    name = ast.Name(target.id, ast.Load())
    new = assume(fa, ast.Compare(name, [ast.Gt() if turn else ast.Eq()], [start]), True)
    if new is not None and isinstance(start, ast.Constant) and isinstance(start.value, int) and start.value >= 0:
        new = assume(new, name, bool(start.value) or turn > 0) or new
    return fa if new is None else new


def nothing(e, st):
    """states in which the collection e has no element"""
    t = None
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)) and e.elts and not any(isinstance(x, ast.Starred) for x in e.elts):
        return []
    if isinstance(e, ast.Constant):
        return [st] if not e.value else []
    if isinstance(e, (ast.Name, ast.Attribute, ast.Subscript)):
        t = ast.UnaryOp(ast.Not(), e)
    elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and not e.keywords:
        if e.func.id == 'range' and len(e.args) == 1:
            t = ast.Compare(e.args[0], [ast.LtE()], [ast.Constant(0)])
        elif e.func.id == 'range' and len(e.args) == 2:
            t = ast.Compare(e.args[1], [ast.LtE()], [e.args[0]])
        elif e.func.id in ('list', 'tuple', 'set', 'sorted', 'reversed', 'enumerate') and len(e.args) == 1:
            return nothing(e.args[0], st)
    if t is None:
        return [st]
    fa = assume(st[0], t, True)
    return [] if fa is None else [(fa, st[1])]


def endless(e):
    return isinstance(e, ast.Call) and (isinstance(e.func, ast.Name) and e.func.id in ('count', 'cycle') or
                                        isinstance(e.func, ast.Attribute) and e.func.attr in ('count', 'cycle') and isinstance(e.func.value, ast.Name) and e.func.value.id == 'itertools')
