"""Control flow of one function: statements, tests and loop steps with their successors."""
import ast

from .flow import FUNCS


class Node:
    """kind: entry exit stmt test over iter (over: the collection of a loop is evaluated); ast is the statement, the test or the for statement"""
    __slots__ = ('kind', 'ast', 'succ', 'id')

    def __init__(self, kind, a, id):
        self.kind, self.ast, self.id = kind, a, id
        self.succ = []        # (node, label): label True/False at a test, 'item'/'done' at a loop step


def own_nodes(e):
    """the nodes of an expression or simple statement evaluated here: not inside nested functions"""
    stack = [e]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, FUNCS + (ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class CFG:
    def __init__(self, fn):
        self.nodes = []
        self.entry = self.new('entry', None)
        self.exit = self.new('exit', None)
        body = fn.body if isinstance(fn.body, list) else [fn.body]
        outs = self.block(body, [(self.entry, None)], None, ())
        self.link(outs, self.exit)

    def new(self, kind, a):
        n = Node(kind, a, len(self.nodes))
        self.nodes.append(n)
        return n

    def link(self, outs, n):
        for m, lab in outs:
            m.succ.append((n, lab))

    def add(self, kind, a, ins, traps):
        n = self.new(kind, a)
        self.link(ins, n)
        for t in traps:
            t.append((n, 'raise'))
        return n

    def block(self, stmts, ins, loop, traps):
        """-> dangling (node, label) pairs"""
        for s in stmts:
            ins = self.stmt(s, ins, loop, traps)
        return ins

    def stmt(self, s, ins, loop, traps):
        if isinstance(s, ast.If):
            t = self.add('test', s.test, ins, traps)
            return self.block(s.body, [(t, True)], loop, traps) + self.block(s.orelse, [(t, False)], loop, traps)
        if isinstance(s, ast.While):
            t = self.add('test', s.test, ins, traps)
            brk = []
            outs = self.block(s.body, [(t, True)], (t, brk), traps)
            self.link(outs, t)
            forever = isinstance(s.test, ast.Constant) and bool(s.test.value)
            return self.block(s.orelse, [] if forever else [(t, False)], loop, traps) + brk
        if isinstance(s, (ast.For, ast.AsyncFor)):
            first = self.add('over', s.iter, ins, traps)
            t = self.add('iter', s, [(first, None)], traps)
            brk = []
            outs = self.block(s.body, [(t, 'item')], (t, brk), traps)
            self.link(outs, t)
            return self.block(s.orelse, [(t, 'done')], loop, traps) + brk
        if isinstance(s, (ast.With, ast.AsyncWith)):
            n = None
            for i in s.items:
                n = self.add('stmt', i.context_expr, ins, traps)
                ins = [(n, None)]
            return self.block(s.body, ins, loop, traps)
        if isinstance(s, ast.Try):
            trap = []
            outs = self.block(s.body, ins, loop, traps + (trap,))
            outs = self.block(s.orelse, outs, loop, traps)
            caught = trap + [(m, l) for m, l in ins]
            for h in s.handlers:
                n = self.new('stmt', h.type) if h.type is not None else self.new('stmt', None)
                self.link(caught, n)
                outs = outs + self.block(h.body, [(n, None)], loop, traps)
            if s.finalbody:
                if not s.handlers:
                    n = self.new('stmt', None)
                    self.link(caught, n)
                    escaped = self.block(s.finalbody, [(n, None)], loop, traps)
                    self.link(escaped, self.exit)
                outs = self.block(s.finalbody, outs, loop, traps)
            return outs
        if isinstance(s, ast.Match):
            n = self.add('stmt', s.subject, ins, traps)
            outs = [(n, None)]
            for c in s.cases:
                outs = outs + self.block(c.body, [(n, None)], loop, traps)
            return outs
        n = self.add('stmt', s, ins, traps)
        if isinstance(s, (ast.Return, ast.Raise)):
            n.succ.append((self.exit, None))
            return []
        if isinstance(s, ast.Break):
            loop[1].append((n, None))
            return []
        if isinstance(s, ast.Continue):
            n.succ.append((loop[0], None))
            return []
        return [(n, None)]

    def forward(self, start, step, join):
        """state before each node; step(node, state) -> {label: state} or one state for all labels"""
        before = {self.entry: start}
        work = [self.entry]
        while work:
            n = work.pop()
            out = step(n, before[n])
            for m, lab in n.succ:
                s = out[lab] if isinstance(out, dict) and lab in out else out.get(None) if isinstance(out, dict) else out
                if s is None:
                    continue
                new = s if m not in before else join(before[m], s)
                if m not in before or new != before[m]:
                    before[m] = new
                    work.append(m)
        return before

    def reach(self, n, stop=()):
        """nodes reachable after n (n itself only through a cycle), not going beyond nodes in stop"""
        seen, work = set(), [m for m, _ in n.succ]
        while work:
            m = work.pop()
            if m in seen:
                continue
            seen.add(m)
            if m in stop:
                continue
            work.extend(k for k, _ in m.succ)
        return seen
