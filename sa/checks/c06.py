"""C06: an option a caller gives is honoured, under its own name, all the way down."""
import ast

from ..absint import kind_cls, kinds_of
from ..canon import bind_args, target
from ..core import Finding
from ..flow import Exit, FUNCS, Slice
from ..program import Func, walk_own
from ..rules import method_root

# an option that has no effect by design: (function, option) -> reason
INERT = {
    ('permutations.Permutation.fpf_rothe_diagram', 'fpf'): 'the operation is the fpf case; the parameter only mirrors involution_rothe_diagram',
    ('symmetric.SymmetricPolynomial.__init__', 'multiplier'): 'symmetric polynomials always multiply as such; the parameter keeps the constructor of Vector',
}
# an option that is deliberately not handed on: (function, callee, option) -> reason
STOPPED = {
    ('partitions.Partition.shifted_shape', 'shifted_shape', 'nu'): 'the skew shape is the difference of two straight shapes',
    ('permutations.Permutation.involutions', 'involutions', 'fpf'): 'the signed enumeration starts from all unsigned involutions',
    ('permutations.Permutation.involutions', 'involutions', 'signed'): 'the signed enumeration starts from the unsigned one',
    ('permutations.Permutation.fpf_rothe_diagram', 'involution_rothe_diagram', 'fpf'): 'the operation is the fpf case',
}


def options_of(program):
    """parameter names that are optional somewhere, with a plain default"""
    out = set()
    for f in program.funcs.values():
        for q, d in f.defaults().items():
            if isinstance(d, ast.Constant) or (isinstance(d, ast.Tuple) and not d.elts):
                out.add(q)
    return out


def shapes_of(program):
    """optional parameters that are data (an absent shape or word), not options"""
    out = {'nu', 'mu'}
    for f in program.funcs.values():
        for q, d in f.defaults().items():
            if isinstance(d, ast.Tuple) or q in [x for g in program.funcs.values() if g.name == f.name and g is not f for x in own_params(g) if x not in g.defaults()]:
                out.add(q)
    return out


def decided(world, f, flow, call, q, flag=False):
    """is the call on a branch that the option itself chooses?"""
    up = parents(f)
    n = call
    while n is not f.node:
        above = up[n]
        if isinstance(above, (ast.IfExp, ast.If)) and n is not above.test and not memo_test(world, f, above.test):
            if not flag:
                if mentions(flow, above.test, q):
                    return True
            elif fixes(flow, above.test, n is above.body if isinstance(above, ast.IfExp) else n in above.body, q):
                return True
        for block in ('body', 'orelse', 'finalbody'):
            stmts = getattr(above, block, None)
            if isinstance(stmts, list) and n in stmts:
                for s in stmts[:stmts.index(n)]:
                    if isinstance(s, ast.If) and q in plain_names(s.test) and any(isinstance(x, (ast.Return, ast.Raise, ast.Continue, ast.Break)) for x in s.body):
                        return True
        n = above
    return False


def fixes(flow, t, value, q):
    """does the test t being so tell what the option q is?"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return fixes(flow, t.operand, not value, q)
    if isinstance(t, ast.BoolOp):
        if isinstance(t.op, ast.And) == value:
            return any(fixes(flow, x, value, q) for x in t.values)
        return all(fixes(flow, x, value, q) for x in t.values)
    if not mentions(flow, t, q):
        return False
    if isinstance(t, ast.Compare):
        # measured against data it may still be anything
        return all(mentions(flow, x, q) or not any(isinstance(y, ast.Name) and y in flow.uses for y in ast.walk(x)) for x in [t.left] + t.comparators) and \
            not any(isinstance(x, ast.Name) and x.id != q and not mentions(flow, x, q) and x in flow.uses for x in ast.walk(t))
    return True


def memo_test(world, f, e):
    return isinstance(e, ast.Compare) and isinstance(e.ops[0], (ast.In, ast.NotIn)) and table(world, f, e.comparators[0])


def plain_names(e):
    if isinstance(e, ast.UnaryOp):
        return plain_names(e.operand)
    if isinstance(e, ast.BoolOp):
        each = [plain_names(x) for x in e.values]
        return set().union(*each) if all(each) else set()
    if isinstance(e, ast.Compare) and all(isinstance(o, (ast.Is, ast.IsNot)) for o in e.ops):
        return plain_names(e.left).union(*[plain_names(x) for x in e.comparators])
    return {e.id} if isinstance(e, ast.Name) else set()


_UP = {}


def parents(f):
    if f.node not in _UP:
        _UP[f.node] = {c: n for n in ast.walk(f.node) for c in ast.iter_child_nodes(n)}
    return _UP[f.node]


def mentions(flow, e, q):
    sl = Slice(flow, control=False)
    sl.expr(flow, e)
    return any(l[1] == q for l in sl.leaves if l[0] in ('param', 'global'))


def callee(world, func, call):
    p, e = world.program, world.eng
    t = target(p, func, call)
    if t is None and isinstance(call.func, ast.Attribute):
        names = [kind_cls(k) for k in kinds_of(e.types.get(call.func.value, ()))]
        fs = {p.classes[x].find(call.func.attr) for x in names if x in p.classes}
        fs.discard(None)
        if len(fs) == 1:
            t = fs.pop()
    return t if isinstance(t, Func) else None


def is_bound(t, call):
    if t.cls is None or t.parent is not None:
        return False
    if t.kind == 'method' and isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) and call.func.value.id == t.cls.name:
        return False
    return t.kind in ('method', 'classmethod', 'decorated')


def own_params(f):
    ps = f.all_params()
    if f.cls is not None and f.parent is None and f.kind != 'staticmethod':
        ps = ps[1:]
    return ps


def scope_params(f):
    """parameters of a function and of those around it"""
    out = {}
    while f is not None:
        for q in own_params(f):
            out.setdefault(q, f)
        f = f.parent
    return out


def table(world, func, e):
    """is the expression a module-level container (a memo table)?"""
    if not isinstance(e, ast.Name):
        return False
    t = world.program.resolve_name(func.module, e.id)
    return isinstance(t, tuple) and t[0] == 'global' and e.id not in world.flow(method_root(func)).locals


def filled(world, f):
    """tables the function fills itself with what it works out and answers from"""
    out = set()
    if not any(isinstance(n, (ast.Yield, ast.YieldFrom)) or isinstance(n, ast.Return) and n.value is not None for n in walk_own(f.node)):
        return out
    params = set(f.all_params())
    for n in walk_own(f.node):
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and not (isinstance(n.value, ast.Name) and n.value.id in params):
                    out.add(t.value.id)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('setdefault', 'append', 'add'):
            b = n.func.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name):
                out.add(b.id)
    return out


class Use:
    """does a value depend on a parameter otherwise than through a memo key or the
    argument of the same name in a recursive call?"""

    def __init__(self, world, func, flow):
        self.world, self.func, self.flow = world, func, flow
        self.filled = filled(world, func)

    def table(self, e):
        return isinstance(e, ast.Name) and e.id in self.filled and table(self.world, self.func, e)

    def leaves(self, exprs, q=None):
        skip = set()

        def stop(flow, e):
            if id(e) in skip:
                return 'skip'
            if isinstance(e, ast.Subscript) and self.table(e.value):
                return 'memo'
            if isinstance(e, ast.Compare) and any(self.table(c) for c in e.comparators):
                return 'memo'
            if isinstance(e, ast.Call):
                if isinstance(e.func, ast.Attribute) and e.func.attr in ('get', 'setdefault', 'pop') and self.table(e.func.value):
                    return 'memo'
                if q is not None and callee(self.world, self.func, e) is self.func:
                    b = bind_args(self.func, e, is_bound(self.func, e)) or {}
                    if q in b:
                        skip.add(id(b[q]))
            return None
        sl = Slice(self.flow, stop)
        for flow, x in exprs:
            sl.expr(flow, x)
        return {l[1] for l in sl.leaves if l[0] == 'param'}


def results(flow):
    for v, ctl, n in flow.returns + flow.yields:
        if v is None:
            continue
        yield v
        for t in ctl:
            yield t.test if isinstance(t, Exit) else t
    # values stored in a memo table before they are returned


def stored(world, f, flow):
    for n in walk_own(f.node):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Subscript) and table(world, f, t.value) for t in n.targets):
            yield n.value
            for t in flow.control_of.get(n, ()):
                yield t.test if isinstance(t, Exit) else t


def effects(f):
    for n in walk_own(f.node):
        if isinstance(n, ast.Expr):
            yield n.value
        elif isinstance(n, ast.Assert):
            yield n.test
        elif isinstance(n, (ast.If, ast.While)):
            if any(isinstance(x, (ast.Raise, ast.Expr, ast.Assert, ast.Delete)) for s in n.body for x in ast.walk(s)):
                yield n.test
        elif isinstance(n, ast.For):
            yield n.iter
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                if not isinstance(t, (ast.Name, ast.Tuple)):
                    yield t
                    yield n.value


def held_options(cls):
    """constructor parameters a class keeps under their own name"""
    out = set()
    for c in cls.mro():
        ini = c.methods.get('__init__')
        if ini is None:
            continue
        me = ini.params()[0]
        for n in walk_own(ini.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me and t.attr == n.value.id:
                        out.add(t.attr)
    return out


def check(world):
    p = world.program
    world.eng
    found = []
    opts = options_of(p)
    flags = opts - shapes_of(p)
    nparams = ncalls = nforward = 0

    for f in p.funcs.values():
        if f.parent is not None or not isinstance(f.node, FUNCS):
            continue
        flow = world.flow(f)
        use = Use(world, f, flow)
        ps = own_params(f)
        if not ps:
            continue
        vals = [(flow, x) for x in results(flow)] + [(flow, x) for x in stored(world, f, flow)]
        body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if len(body) == 1 and isinstance(body[0], (ast.Raise, ast.Pass)):
            continue
        for q in ps:
            nparams += 1
            if (f.qual, q) in INERT:
                continue
            if q in use.leaves(vals, q):
                continue
            if q in use.leaves([(flow, x) for x in effects(f)], q):
                # decides what is done, not what is answered: an answerless operation, or which input is refused
                continue
            found.append(Finding('unused', f, f.node, '%s is accepted but nothing the operation answers or does depends on it' % q, q))

    for f in p.funcs.values():
        root = method_root(f)
        flow = world.flow(f)
        mine = scope_params(f)
        held = held_options(root.cls) if root.cls is not None and root.kind in ('method', 'property') and root.name != '__init__' else set()
        me = root.params()[0] if held else None
        for c in walk_own(f.node):
            if not isinstance(c, ast.Call):
                continue
            t = callee(world, f, c)
            if t is None:
                continue
            ncalls += 1
            b = bind_args(t, c, is_bound(t, c))
            if b is None:
                continue
            params = own_params(t)
            if isinstance(c.func, ast.Attribute) and not is_bound(t, c):
                params = t.all_params()
            names = [q for q in params if q in opts]
            for q in names:
                if (root.qual, t.name, q) in STOPPED:
                    continue
                from_self = False
                if q in mine:
                    owner = mine[q]
                    if q == (owner.params() or [None])[0]:
                        continue
                elif q in held:
                    from_self = True
                else:
                    continue
                if from_self and t.name in ('__init__', '__new__', 'base'):
                    # the object that is built need not be a copy of this one
                    continue
                if decided(world, f, flow, c, q, isinstance(t.defaults().get(q), ast.Constant) and isinstance(t.defaults()[q].value, bool)):
                    # the call is made for one value of the option only
                    continue
                if q in b:
                    nforward += 1
                    arg = b[q]
                    if q not in flags:
                        # shapes go by many names; only what an option named alike is given is compared
                        continue
                    if depends(world, f, flow, arg, q, me if from_self else None):
                        # handed on; but not crossed with another option
                        continue
                    if isinstance(arg, ast.Name) and arg.id in params and arg.id in opts and arg.id in mine:
                        found.append(Finding('crossed', f, c, 'option %s of %s is given the caller\'s %s instead' % (q, t.qual, arg.id), '%s %s %s' % (t.name, q, arg.id)))
                    elif isinstance(arg, ast.Constant) or q in t.defaults():
                        found.append(Finding('overridden', f, c, 'the caller\'s own %s is ignored: %s is called with %s=%s' % (q, t.qual, q, ast.unparse(arg)), '%s %s' % (t.name, q)))
                elif q in t.defaults():
                    found.append(Finding('dropped', f, c, 'the caller\'s %s is not handed on to %s, which takes it' % (q, t.qual), '%s %s' % (t.name, q)))
            # a plain name given to another option than its own
            for q, arg in b.items():
                if isinstance(arg, ast.Name) and arg.id != q and q in opts and arg.id in opts and arg.id in params and arg.id in mine and q not in mine:
                    d, o = t.defaults().get(q), t.defaults().get(arg.id)
                    if isinstance(d, ast.Constant) and isinstance(o, ast.Constant) and q in flags and arg.id in flags:
                        found.append(Finding('crossed', f, c, 'option %s of %s is given the caller\'s %s' % (q, t.qual, arg.id), '%s %s %s' % (t.name, q, arg.id)))
    return found, {'parameters': nparams, 'library_calls': ncalls, 'options_forwarded': nforward, 'option_names': len(opts)}, {
        'explanation': 'Every parameter of every operation must be in the backward slice (data and control; memo keys and the same '
                       'argument of a recursive call aside) of what the operation answers, stores or does. Wherever an operation '
                       'calls another one that takes an option of a name it takes itself (or that its object was built with), the '
                       'value handed on must depend on its own.',
        'assumptions': ['options of one name mean the same in caller and callee, except for the listed cases (INERT, STOPPED)']}


def depends(world, f, flow, arg, q, me):
    sl = Slice(flow, control=True)
    sl.expr(flow, arg)
    if me is None:
        if any(l[0] == 'param' and l[1] == q for l in sl.leaves):
            return True
        # a closure sees the parameter of the function around it
        return any(l[0] == 'global' and l[1] == q for l in sl.leaves)
    seen = set()

    def reads(fl, e):
        for n in ast.walk(e):
            if isinstance(n, ast.Attribute) and n.attr == q:
                return True
            if isinstance(n, ast.Name):
                for d in fl.uses.get(n, ()):
                    if d.id not in seen:
                        seen.add(d.id)
                        if any(reads(d.scope, x) for x in d.exprs) or any(reads(d.scope, t.test if isinstance(t, Exit) else t) for t in d.control):
                            return True
        return False
    return reads(flow, arg)
