"""C13: computing functions do no I/O; importing the library does none either."""
import ast

from ..program import walk_own
from ..rules import events, finding, method_root

# public operations whose documented purpose is to show or export something
DISPLAY = {
    'boxes.BoxOperator.print_commutator', 'crystals.CrystalMixin.write_dotfile', 'crystals.CrystalMixin.generate',
    # these build and export a whole family of crystals
    'crystals.TableauCrystalGenerator.all', 'crystals.ShiftedCrystalGenerator.all', 'crystals.WordCrystalGenerator.all',
    'operators.compare', 'operators.compare_AL_R_versus_R_AL', 'partitions.Partition.print_diagram',
    'partitions.Partition.print_growth_diagram', 'partitions.Partition.print_shifted', 'partitions.Partition.print_shifted_growth_diagram',
    'permutations.Permutation.print_fpf_rothe_diagram', 'permutations.Permutation.print_involution_rothe_diagram',
    'permutations.Permutation.print_rothe_diagram', 'vectors.Vector.print_matrix',
}
STDIN = {'input', 'breakpoint'}


def is_display(qual):
    """a public show/export operation, or something nested in one"""
    if qual in DISPLAY:
        return True
    last = qual.split('.')[-1]
    return last.startswith('print_') or any(qual.startswith(d + '.') for d in DISPLAY)


def always_raises(body):
    """every way through the statements ends in raise"""
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.If) and s.orelse and always_raises(s.body) and always_raises(s.orelse):
            return True
        if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
            return False
        if isinstance(s, ast.With) and always_raises(s.body):
            return True
    return False


def in_raising_handler(f, node):
    for n in walk_own(f.node):
        if isinstance(n, ast.ExceptHandler) and always_raises(n.body) and any(x is node for x in ast.walk(n)):
            return True
    return False


def report_only_helpers(program):
    """functions called only inside except handlers that end in raise"""
    names = {}
    for f in program.funcs.values():
        for n in walk_own(f.node):
            if isinstance(n, ast.Call):
                nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
                if nm:
                    names.setdefault(nm, []).append(in_raising_handler(f, n))
    return {f.qual for f in program.funcs.values() if names.get(f.name) and all(names[f.name])}


def check(world):
    p, e = world.program, world.eng
    callers = {}
    for c in e.ctx_list:
        for (cid, _, _) in c.callees:
            callers.setdefault(cid, set()).add(c)
    byid = {c.id: c for c in e.ctx_list}
    quiet = report_only_helpers(p)
    io_at = {}
    for c in e.ctx_list:
        io_at.setdefault(c.func.qual, []).append(c)

    def leaking_path(qual):
        """a call chain that brings a computing operation called from outside to qual"""
        starts = list(io_at.get(qual, ()))
        prev = {c.id: None for c in starts}
        todo = list(starts)
        while todo:
            c = todo.pop(0)
            cs = callers.get(c.id, ())
            root = c.func.qual.startswith('<caller of') or c.func.qual.endswith('<module>')
            if root or not cs:
                op = prev[c.id] if root and prev[c.id] is not None else c
                if is_display(op.func.qual):
                    continue
                path = []
                while c is not None:
                    path.append(c.func.qual)
                    c = prev[c.id]
                return path
            for d in sorted(cs, key=lambda x: x.id):
                if d.id not in prev:
                    prev[d.id] = c
                    todo.append(d)
        return None

    out = []
    seen = shown = reports = 0
    for kind, qual, node, detail, ctx in events(e, 'io'):
        seen += 1
        f = p.funcs.get(qual)
        if f is None:
            out.append(finding(p, 'import-io', qual, node, '%s runs when the module is imported' % detail[0], detail[0]))
            continue
        name = detail[0]
        if name == 'print' and (in_raising_handler(f, node) or qual in quiet):
            reports += 1
            continue
        path = leaking_path(qual)
        if path is None:
            shown += 1
            continue
        out.append(finding(p, 'io', qual, node, '%s is reached from a computing operation' % name, name, path))
    cov = dict(world.engine_stats())
    cov.update({'io_sites': seen, 'io_sites_in_display_operations': shown, 'io_sites_in_handlers_that_raise': reports})
    meta = {
        'explanation': 'Effect analysis over the whole-program call graph: every site that prints, reads, opens or starts '
                       'something is classified by the call chains that reach it; each chain from a public operation (or '
                       'from a module body) must pass through an operation that exists to show or export, or the site '
                       'must print inside an except handler that always ends in raise.',
        'assumptions': ['callables passed in by the caller do no I/O'],
    }
    return out, cov, meta
