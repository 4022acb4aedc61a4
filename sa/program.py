"""Program model: every module of the library, its classes and functions.

Everything is built from the source text of the tree under analysis on each
run.  Nothing of the library is imported or executed.
"""
import ast
import os

REPO = os.environ.get('SA_REPO', '/repo')
EXCLUDED_DIRS = {'tests', 'test', '.git', '__pycache__', '.pytest_cache'}


class AnalysisBroken(Exception):
    """An anchor vanished or the source cannot be analysed: error exit."""


class Func:
    def __init__(self, qual, node, module, cls, parent):
        self.qual = qual
        self.node = node
        self.module = module
        self.cls = cls
        self.parent = parent
        self.name = getattr(node, 'name', '<lambda>')
        self.nested = []
        self.decorators = [ast.unparse(d) for d in getattr(node, 'decorator_list', [])]

    @property
    def file(self):
        return self.module.file

    @property
    def kind(self):
        if self.cls is None or self.parent is not None:
            return 'function'
        for d in self.node.decorator_list:
            base = d.func if isinstance(d, ast.Call) else d
            name = base.id if isinstance(base, ast.Name) else base.attr if isinstance(base, ast.Attribute) else ''
            if name == 'classmethod':
                return 'classmethod'
            if name == 'staticmethod':
                return 'staticmethod'
            if name == 'property':
                return 'property'
            if isinstance(d, ast.Call):
                return 'decorated'
        return 'method'

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def all_params(self):
        a = self.node.args
        out = self.params()
        if a.vararg:
            out.append(a.vararg.arg)
        out += [x.arg for x in a.kwonlyargs]
        if a.kwarg:
            out.append(a.kwarg.arg)
        return out

    def defaults(self):
        """name -> default expression"""
        a = self.node.args
        pos = a.posonlyargs + a.args
        out = {}
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            out[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[p.arg] = d
        return out

    def loc(self, node=None):
        n = node if node is not None else self.node
        return '%s:%s' % (self.file, getattr(n, 'lineno', '?'))

    def is_generator(self):
        return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(self.node))

    def __repr__(self):
        return '<Func %s>' % self.qual


class Cls:
    def __init__(self, name, node, module):
        self.name = name
        self.node = node
        self.module = module
        self.methods = {}
        self.attrs = {}
        self.bases = []      # Cls objects
        self.ext_bases = []  # names of builtin bases

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c not in out:
                    out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def __repr__(self):
        return '<Cls %s>' % self.name


class Module:
    def __init__(self, name, file, tree):
        self.name = name
        self.file = file
        self.tree = tree
        self.funcs = {}
        self.classes = {}
        self.imports = {}     # local name -> ('mod', name) | ('from', module, name)
        self.assigns = {}     # name -> list of value expressions


def walk_own(fn_node):
    """Walk a function body without entering nested function definitions
    (comprehensions and lambdas' own bodies: lambdas are nested, comprehensions are not)."""
    body = fn_node.body if isinstance(fn_node.body, list) else [fn_node.body]
    stack = list(reversed(body))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(reversed(list(ast.iter_child_nodes(n))))


class Program:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        self.skipped = {}
        self.funcs = {}
        self.classes = {}
        self.func_of_node = {}
        self._load()
        self._index()

    # -- loading -----------------------------------------------------------
    def _load(self):
        paths = []
        for d, dirs, files in os.walk(self.root):
            dirs[:] = sorted(x for x in dirs if x not in EXCLUDED_DIRS and not x.startswith('.'))
            for f in sorted(files):
                if f.endswith('.py'):
                    paths.append(os.path.join(d, f))
        for p in paths:
            rel = os.path.relpath(p, self.root)
            name = rel[:-3].replace(os.sep, '.')
            if name.endswith('.__init__'):
                name = name[:-9]
            src = open(p, encoding='utf-8').read()
            try:
                tree = ast.parse(src, rel)
            except SyntaxError as e:
                self.skipped[name] = 'does not parse: %s' % e
                continue
            self.modules[name] = Module(name, rel, tree)
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                names = []
                if isinstance(n, ast.Import):
                    names = [a.name for a in n.names]
                elif isinstance(n, ast.ImportFrom):
                    names = [n.module or '']
                for x in names:
                    if x in self.skipped:
                        raise AnalysisBroken('%s imports %s which does not parse' % (m.file, x))

    # -- indexing ----------------------------------------------------------
    def _index(self):
        for m in self.modules.values():
            for n in m.tree.body:
                self._index_stmt(m, n)
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.node.bases:
                    t = self.resolve_name(m, b.id) if isinstance(b, ast.Name) else None
                    if isinstance(t, Cls):
                        c.bases.append(t)
                    else:
                        c.ext_bases.append(ast.unparse(b))

    def _index_stmt(self, m, n):
        if isinstance(n, ast.FunctionDef):
            m.funcs[n.name] = self._func(m.name + '.' + n.name, n, m, None, None)
        elif isinstance(n, ast.ClassDef):
            c = Cls(n.name, n, m)
            m.classes[n.name] = c
            self.classes[n.name] = c
            for s in n.body:
                if isinstance(s, ast.FunctionDef):
                    c.methods[s.name] = self._func('%s.%s.%s' % (m.name, n.name, s.name), s, m, c, None)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            c.attrs[t.id] = s.value
        elif isinstance(n, ast.Import):
            for a in n.names:
                m.imports[a.asname or a.name.split('.')[0]] = ('mod', a.name)
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                m.imports[a.asname or a.name] = ('from', n.module, a.name)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        m.assigns.setdefault(x.id, []).append(n.value)
        elif isinstance(n, (ast.AnnAssign, ast.AugAssign)):
            if isinstance(n.target, ast.Name) and n.value is not None:
                m.assigns.setdefault(n.target.id, []).append(n.value)
        elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
            for x in ast.iter_child_nodes(n):
                if isinstance(x, ast.stmt):
                    self._index_stmt(m, x)

    def _func(self, qual, node, m, cls, parent):
        base, k = qual, 2
        while qual in self.funcs:
            qual = '%s#%d' % (base, k)
            k += 1
        f = Func(qual, node, m, cls, parent)
        self.funcs[qual] = f
        self.func_of_node[node] = f
        for n in walk_own(node):
            if isinstance(n, ast.FunctionDef):
                g = self._func(qual + '.' + n.name, n, m, cls, f)
                f.nested.append(g)
            elif isinstance(n, ast.Lambda):
                g = self._func(qual + '.<lambda>', n, m, cls, f)
                f.nested.append(g)
        return f

    # -- names -------------------------------------------------------------
    def resolve_name(self, m, name, seen=()):
        """Resolve a module-level name to Func, Cls, Module, ('const', module, name) or None."""
        if (m.name, name) in seen:
            return None
        if name in m.classes:
            return m.classes[name]
        if name in m.funcs:
            return m.funcs[name]
        if name in m.imports:
            imp = m.imports[name]
            if imp[0] == 'mod':
                return self.modules.get(imp[1], ('extmod', imp[1]))
            t = self.modules.get(imp[1])
            if t is None:
                return ('ext', imp[1], imp[2])
            return self.resolve_name(t, imp[2], seen + ((m.name, name),))
        if name in m.assigns:
            vals = m.assigns[name]
            if len(vals) == 1 and isinstance(vals[0], ast.Name):
                r = self.resolve_name(m, vals[0].id, seen + ((m.name, name),))
                if r is not None:
                    return r
            return ('global', m.name, name)
        return None

    def need(self, qual):
        f = self.funcs.get(qual)
        if f is None:
            raise AnalysisBroken('anchor function vanished: %s' % qual)
        return f

    def need_class(self, name):
        c = self.classes.get(name)
        if c is None:
            raise AnalysisBroken('anchor class vanished: %s' % name)
        return c

    def subclasses(self, c):
        return [d for d in self.classes.values() if c in d.mro()]
