"""What the tests on a path tell: comparisons between terms, truth of expressions."""
import ast
import re

SIGNS = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '=', ast.NotEq: '<>'}
ALL = '<=>'


def assume(facts, t, value):
    """facts with the test t known to be value; None when that cannot be"""
    facts = assume1(facts, t, value)
    if facts is None or not consistent(facts):
        return None
    return settle(facts)


def settle(facts, depth=2):
    """open alternatives: contradicted when none is left, known when one is"""
    open_ = []
    for clause in facts.get('#or', ()):
        alive = [x for x in clause if assume0(facts, *x) is not None]
        if not alive:
            return None
        if len(alive) == 1:
            facts = assume0(facts, *alive[0])
        else:
            open_.append(alive)
    if depth and len(open_) < 6:
        for alive in open_:
            if not any(settled(assume0(facts, *x), depth - 1) for x in alive):
                return None
    return facts


def settled(facts, depth):
    return facts is not None and settle(facts, depth) is not None


def assume0(facts, t, value):
    facts = assume1(facts, t, value)
    return facts if facts is not None and consistent(facts) else None


def forget(facts, names):
    """facts after the names have been assigned"""
    if not names or not facts:
        return facts
    pat = re.compile(r'\b(%s)\b' % '|'.join(map(re.escape, sorted(names))))
    out = {}
    for k, v in facts.items():
        if k == '#or':
            v = tuple(c for c in v if not any(pat.search(ast.unparse(x)) for x, _ in c))
        if not any(pat.search(x) for x in (k if isinstance(k, tuple) else (k,))):
            out[k] = v
    return out


def choice(facts, t, items, equal):
    """t is (is not) one of the items, all of them constants or type names; None when that cannot be"""
    if not items or not all(constant(x) for x in items):
        return facts
    k = '? ' + ast.unparse(t)
    names = {ast.unparse(x) for x in items}
    now = facts.get(k)
    if now is None and isinstance(t, ast.BinOp) and isinstance(t.op, ast.Mod) and isinstance(t.right, ast.Constant) and isinstance(t.right.value, int) and 0 < t.right.value < 20:
        now = frozenset(map(str, range(t.right.value)))
    if equal:
        now = frozenset(names) if now is None else now & names
    elif now is not None:
        now = now - names
    else:
        facts['! ' + k[2:]] = facts.get('! ' + k[2:], frozenset()) | names
    if now is not None:
        facts[k] = now
    return None if now is not None and not now else facts


def constant(e):
    return isinstance(e, (ast.Constant, ast.Name)) and not (isinstance(e, ast.Name) and not (e.id[0].isupper() or e.id in ('int', 'str', 'list', 'tuple', 'set', 'dict', 'bool')))


def assume1(facts, t, value):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return assume0(facts, t.operand, not value)
    if isinstance(t, ast.Constant):
        return facts if bool(t.value) == value else None
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) == value:
        for x in t.values:
            facts = assume0(facts, x, value)
            if facts is None:
                return None
        return facts
    if isinstance(t, ast.BoolOp):
        # one of them: contradicted only when all are
        alive = [x for x in t.values if assume0(facts, x, value) is not None]
        if len(alive) > 1:
            facts = dict(facts)
            facts['#or'] = facts.get('#or', ()) + (tuple((x, value) for x in alive),)
            return facts
        return assume0(facts, alive[0], value) if alive else None
    facts = dict(facts)
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in SIGNS:
        a, b = ast.unparse(t.left), ast.unparse(t.comparators[0])
        signs = set(SIGNS[type(t.ops[0])])
        if not value:
            signs = set(ALL) - signs
        if b < a:
            a, b = b, a
            signs = {{'<': '>', '>': '<', '=': '='}[x] for x in signs}
        now = facts.get((a, b), frozenset(ALL)) & signs
        if not now:
            return None
        facts[(a, b)] = now
        if isinstance(t.ops[0], (ast.Eq, ast.NotEq)):
            equal = isinstance(t.ops[0], ast.Eq) == value
            facts = choice(facts, t.left, [t.comparators[0]], equal)
            return facts and choice(facts, t.comparators[0], [t.left], equal)
        return facts
    if isinstance(t, ast.Compare) and len(t.ops) > 1:
        if value:
            left = t.left
            for o, c in zip(t.ops, t.comparators):
                facts = assume0(facts, ast.Compare(left, [o], [c]), True)
                if facts is None:
                    return None
                left = c
            return facts
        k = ast.unparse(t)
    elif isinstance(t, ast.Compare) and isinstance(t.ops[0], (ast.NotIn, ast.IsNot)):
        o = ast.In() if isinstance(t.ops[0], ast.NotIn) else ast.Is()
        k, value = ast.unparse(ast.Compare(t.left, [o], t.comparators)), not value
    else:
        k = ast.unparse(t)
        zero = ('0', k) if '0' < k else (k, '0')
        now = facts.get(zero, frozenset(ALL)) & (set('<>') if value else set(ALL))
        if not now:
            return None
        if value:
            facts[zero] = now
        size = 'len(%s)' % k
        zero = ('0', size)
        signs = facts.get(zero, frozenset(ALL)) & ({'<'} if value else {'='})
        if not signs:
            return None
        facts[zero] = signs
        facts = choice(facts, t, [ast.Constant(0)], not value)
        if facts is None:
            return None
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        many = isinstance(t.ops[0], (ast.In, ast.NotIn))
        right = t.comparators[0]
        items = [right] if not many else right.elts if isinstance(right, (ast.Tuple, ast.List, ast.Set)) else []
        facts = choice(facts, t.left, items, value)
        if facts is None:
            return None
    if facts.get(k, value) != value:
        return None
    facts[k] = value
    return facts


SEEN = {}


def consistent(facts):
    """no chain of comparisons contradicts itself"""
    key = frozenset((k, v) for k, v in facts.items() if isinstance(k, tuple) or k.startswith('! len('))
    if key not in SEEN:
        SEEN[key] = consistent1(facts)
    return SEEN[key]


def consistent1(facts):
    if any(isinstance(k, str) and k.startswith('! len(') and '1' in v and set(facts.get(('1', k[2:]), ())) == {'>'} for k, v in facts.items()):
        return False        # a collection that is asked for one and for more than one element is not empty
    terms = sorted({x for k in facts if isinstance(k, tuple) for x in k})
    if len(terms) > 24:
        return True
    le = {(a, a): False for a in terms}        # (a, b) -> is a < b known, or only a <= b

    def add(a, b, strict):
        le[a, b] = le.get((a, b), False) or strict
    for k, v in facts.items():
        if isinstance(k, tuple):
            if '>' not in v:
                add(k[0], k[1], '=' not in v)
            if '<' not in v:
                add(k[1], k[0], '=' not in v)
    if '0' not in terms and any(x.startswith('len(') for x in terms):
        terms = terms + ['0']
        le['0', '0'] = False
    for x in terms:
        if x.startswith('len(') and whole(x):
            add('0', x, False)
    numbers = [(int(x), x) for x in terms if x.lstrip('-').isdigit()]
    for n, a in numbers:
        for m, b in numbers:
            if n < m:
                add(a, b, True)
    for k in terms:
        for i in terms:
            for j in terms:
                if (i, k) in le and (k, j) in le:
                    add(i, j, le[i, k] or le[k, j])
    if any(le[a, a] for a in terms):
        return False
    return not any((a, b) in le and (b, a) in le for k, v in facts.items() if isinstance(k, tuple) and set(v) == {'<', '>'} for a, b in [k])


def whole(x):
    """is the term just len(...)?"""
    depth = 0
    for k, c in enumerate(x):
        depth += (c == '(') - (c == ')')
        if c == ')' and depth == 0:
            return k == len(x) - 1
    return False
