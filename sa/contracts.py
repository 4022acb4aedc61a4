"""Types of the arguments a caller of a public operation may pass.

The table is only used to give the analysis a starting point; an argument with
no entry is an unknown object owned by the caller.  Every container here is in
region 'E' (owned by the caller).
"""
import ast
import json
import os
from .absint import (V, VI, VS, VN, VE, BOT, BOOL, INT, NONE, Eo, join, Interp, EXT)

INTS = VI
TI = V(('t*', VI))                      # tuple of ints
LI = V(Eo('list', VI))                  # list of ints
PART = V(('t*', VI), ('t', ()))         # a partition / word
WORD = PART


def inst(cls):
    return V(('o', ('E', ('T', 'inst:' + cls, ()))))


def fn():
    return VE


POLY = inst('Polynomial')
VEC = inst('Vector')
TAB = inst('Tableau')
PERM = inst('Permutation')
SYM = inst('SymmetricPolynomial')
MON = inst('SymmetricMonomial')
BOXES = V(Eo('set', V(('t', (VI, VI)))))
BOXTUP = V(('t*', V(('t', (VI, VI)))))
CELLS = V(('t*', V(('t', (VI, VI, VI)))), ('t', ()))
RECORD = join(VN, V(('t', (VI, VI, join(VI, TI)))))  # a box of a recording tableau

NAMES = {
    'mu': PART, 'nu': PART, 'lam': PART, 'num_variables': VI, 'n': VI, 'i': VI, 'j': VI, 'k': VI, 'm': VI,
    'max_entry': VI, 'degree_bound': join(VI, VN), 'setvalued': BOOL, 'diagonal_primes': BOOL,
    'multisetvalued': BOOL, 'length_bound': VI, 'rank': VI, 'strict': BOOL, 'shifted': BOOL,
    'ascent_bound': join(VI, VN), 'peak_bound': join(VI, VN), 'content_max': VI, 'excess': VI, 'diagonal_nonprimes': BOOL,
    'row': VI, 'col': VI, 'word': WORD, 'index': VI, 'alpha': TI, 'bigger': PART, 'smaller': PART,
    'french': BOOL, 'sep': VS, 'decreasing': BOOL, 'signed': BOOL, 'fpf': BOOL, 'diagonal': VI,
    'max_part': join(VI, VN), 'max_row': join(VI, VN), 'even_parts': BOOL, 'check': BOOL, 'power': VI, 'variable': VS,
    'beta': POLY, 'trim': BOOL, 'first_row_bound': VI, 'shift': BOOL, 'is_symplectic': BOOL,
    'is_multisetvalued': BOOL, 'skipdiagonal': BOOL, 'unpack': BOOL, 'rim': BOXTUP, 'border': BOXTUP,
    'insertion_tableau': TAB, 'recording_tableau': TAB, 'tableau': TAB, 'rpp': TAB, 'element_index': VI,
    'operator_index': VI, 'vector': join(VEC, TI), 'matrix': V(Eo('list', V(Eo('list', VI)))),
    'vst': inst('ValuedSetTableau'), 'value': VI, 'max_size_of_partitions': VI, 'number_of_values_of_n': VI,
    'length': VI, 'l': VI, 'positions': BOXES, 'sh': BOXES, 'box': V(('t', (VI, VI))),
    'cells_filled': CELLS, 'cells_left': BOXTUP, 'before': join(VI, VN), 'after': join(VI, VN),
    'crystal_reading_word': join(V(('t*', WORD)), VN), 'edges': V(Eo('list', V(Eo('list', BOOL)))),
    'growth': V(Eo('list', V(Eo('list', PART)))), 'labels': join(V(Eo('list', VI)), VN),
    'coeffs': V(Eo('dict', VI, inst('HashableDict'))), 'coefficient': join(VI, POLY),
    'diagram': V(Eo('list', V(('t', (VI, VI))))), 'partitions': V(Eo('list', PART)),
    'mapping': join(V(Eo('dict', join(VI, WORD), V(('t', (VI, VI))))), VN, VS), 'function': VE, 'hecke': BOOL,
    'max_row_': VI, 'printer': join(VN, VE), 'multiplier': join(VN, VE), 'coeff': join(VI, POLY),
    'ans': SYM, 'w': PERM, 'ind': inst('HashableDict'),
}

SPECIAL = {
    ('Polynomial', 'other'): join(VI, POLY), ('Polynomial', 'f'): join(VI, POLY), ('Polynomial', 'e'): join(VI, POLY),
    ('Polynomial', 'o'): VI, ('Polynomial.__call__', 'x'): V(Eo('dict', join(VI, POLY), VI)),
    ('Polynomial.__getitem__', 'i'): V(Eo('dict', VI, VI)), ('Polynomial', 'c'): VI,
    ('Vector', 'other'): join(VI, VEC), ('Vector.__mul__', 'other'): join(VI, POLY, VEC),
    ('Vector.__rmul__', 'other'): join(VI, POLY), ('Vector.is_expressable', 'args'): VEC,
    ('Vector.__floordiv__', 'other'): VI, ('Vector.__pow__', 'other'): VI,
    ('Vector', 'item'): TI, ('Vector', 'key'): TI, ('Vector._repr_coeff', 'key'): VS,
    ('Vector', 'dictionary'): V(Eo('dict', VI, TI)),
    ('SymmetricPolynomial', 'dictionary'): V(Eo('dict', join(VI, POLY), MON)),
    ('SymmetricPolynomial', 'other'): join(VI, SYM), ('SymmetricPolynomial.__mul__', 'other'): join(VI, POLY, SYM),
    ('SymmetricPolynomial.__rmul__', 'other'): join(VI, POLY), ('SymmetricPolynomial.__floordiv__', 'other'): VI,
    ('SymmetricPolynomial.__pow__', 'other'): VI,
    ('SymmetricPolynomial', 'f'): SYM, ('SymmetricPolynomial', 'item'): MON, ('SymmetricPolynomial', 'key'): MON,
    ('SymmetricPolynomial.is_expressable', 'args'): SYM,
    ('SymmetricMonomial', 'other'): join(VI, MON, SYM), ('SymmetricMonomial.__pow__', 'other'): VI,
    ('SymmetricMonomial.__lt__', 'other'): MON, ('SymmetricMonomial', 'f'): MON, ('SymmetricMonomial', 'g'): MON,
    ('Permutation', 'other'): PERM, ('Permutation.__pow__', 'n'): VI, ('Permutation.__init__', 'oneline'): VI,
    ('Permutation.cycle', 'args'): VI, ('Permutation', 'w'): PERM,
    ('Permutation.little_bump', 'args'): join(VI, PERM), ('Permutation.involution_little_bump', 'args'): join(VI, PERM), ('Permutation.fpf_involution_little_bump', 'args'): join(VI, PERM),
    ('Permutation.get_grassmannian', 'mu'): VI, ('Permutation.get_inv_grassmannian', 'mu'): VI, ('Permutation.get_fpf_grassmannian', 'mu'): VI,
    ('Partition.growth_diagram', 'dictionary'): join(V(Eo('dict', VI, V(('t', (VI, VI))))), BOXES),
    ('Partition.shifted_growth_diagram', 'dictionary'): join(V(Eo('dict', VI, V(('t', (VI, VI))))), BOXES),
    ('Partition.growth_diagram', 'm'): join(VI, VN), ('Partition.growth_diagram', 'n'): join(VI, VN),
    ('Partition.shifted_growth_diagram', 'm'): join(VI, VN), ('Partition.shifted_growth_diagram', 'n'): join(VI, VN),
    ('Partition.printables', 'args'): PART, ('Partition.shifted_printables', 'args'): PART,
    ('Partition.print_growth_diagram', 'g'): join(V(Eo('list', V(Eo('list', PART)))), BOXES),
    ('Partition.merge_shifted', 'mu'): join(PART, BOXES), ('Partition.merge_shifted', 'shape'): BOXES,
    ('Partition.trim', 'mu'): join(PART, LI), ('Partition.sort', 'mu'): join(PART, LI),
    ('Partition.union', 'q'): PART, ('Partition.union', 'p'): PART,
    ('Tableau', 'other'): TAB, ('Tableau', 'v'): VI, ('Tableau.remove', 'v'): join(VI, VN), ('Tableau.set', 'v'): VI, ('Tableau', 'x'): VI,
    ('Tableau.max_row', 'col'): join(VI, VN), ('Tableau.max_column', 'row'): join(VI, VN), ('Tableau.get', 'default'): join(VI, VN),
    ('Tableau', 'p'): VI, ('Tableau', 's'): VS, ('Tableau', 'corners'): V(Eo('list', V(Eo('list', join(VI, VN))))),
    ('BoxOperator', 'other'): join(VI, POLY, inst('BoxOperator')), ('BoxOperator.__mul__', 'other'): join(VI, POLY, VS, inst('BoxOperator')),
    ('BoxOperator.__rmul__', 'other'): join(VI, POLY, VS, inst('BoxOperator')), ('BoxOperator.__init__', 'args'): VI,
    ('boxes.r', 'i'): VI, ('boxes', 'tup'): TI, ('boxes', 'a'): TI, ('boxes', 'b'): TI,
    ('dualops', 'a'): VI, ('dualops', 'b'): VI, ('operators', 'var'): POLY, ('operators.compare', 'op1'): VE, ('operators.compare', 'op2'): VE,
    ('Word', 'args'): WORD, ('Word', 'v'): WORD, ('Word', 'zeta'): VE, ('Word', 'word'): WORD,
    ('Word.wiring_diagram', 'word'): V(('t*', join(VI, VN))),
    ('polynomials.X', 'i'): join(VI, VN), ('polynomials.Y', 'i'): join(VI, VN),
    ('InsertionAlgorithm', 'args'): WORD, ('InsertionAlgorithm', 'word'): WORD,
    ('InsertionAlgorithm', 'record'): join(V(('t*', VI)), VN), ('InsertionAlgorithm', 'column'): VI, ('InsertionAlgorithm', 'setvalue'): VI,
    ('HState.insertion_tableaux', 'args'): join(VI, WORD), ('FState.insertion_tableaux', 'args'): join(VI, WORD),
    ('HState.previous', 'record'): RECORD, ('FState.previous', 'record'): RECORD,
    ('HState', 'p'): TAB, ('HState', 'q'): TAB, ('FState', 'p'): TAB, ('FState', 'q'): TAB,
    ('HState', 'arg'): VI, ('InsertionState', 'a'): VI, ('HState', 'record'): RECORD, ('FState', 'record'): RECORD,
    ('InsertionState', 'tableau'): join(TAB, VN), ('InsertionState', 'outer'): join(V(('t', (VI, VI))), VN),
    ('ValuedSetTableau', 'other'): inst('ValuedSetTableau'), ('ValuedSetTableau', 'tab'): TAB, ('ValuedSetTableau', 'grp'): TAB,
    ('ValuedSetTableau', 'entry_mapping'): TAB, ('ValuedSetTableau', 'group_mapping'): TAB,
    ('ValuedSetTableau', 'v'): VI, ('ValuedSetTableau', 'x'): V(('t', (VI, VI))), ('ValuedSetTableau', 'y'): V(('t', (VI, VI))),
    ('vst', 'a'): VS, ('vst', 'b'): VS, ('ValuedSetTableau.in_same_group', 'x'): VI, ('ValuedSetTableau.in_same_group', 'y'): VI,
    ('HashableDict', 'x'): VE,
    ('utils.grothendieck', 'mu'): join(PART, PERM), ('utils.grothendieck_P', 'mu'): join(PART, PERM), ('utils.grothendieck_S', 'mu'): join(PART, PERM),
    ('tableaux.nchoosek', 'm'): VI, ('WordCrystalGenerator', 'tup'): V(('t*', WORD)), ('WordCrystalGenerator', 'oneline'): TI,
}

# objects whose whole purpose is to be stepped/filled in by their own methods
BUILDER_CLASSES = {
    'CrystalMixin', 'TableauCrystalGenerator', 'ShiftedCrystalGenerator', 'OrthogonalSetvaluedShiftedCrystalGenerator',
    'URTShiftedCrystalGenerator', 'MRTShiftedCrystalGenerator', 'MRT_Symplectic_ShiftedCrystalGenerator', 'WordCrystalGenerator',
}


def contract(f, p):
    short = f.qual.split('.', 1)[1] if f.cls else f.qual
    for k in ((short, p), (f.cls.name if f.cls else f.module.name, p)):
        if k in SPECIAL:
            return join(SPECIAL[k], asked_for(f, p))
    return join(NAMES.get(p, VE), asked_for(f, p)) if p in NAMES else VE


ASKED = {'list': LI, 'set': V(Eo('set', VE)), 'dict': V(Eo('dict', VE, VE))}


def asked_for(f, p):
    """collections the operation itself asks whether it was given: type(p) == list, isinstance(p, (list, tuple))"""
    out = BOT
    for n in ast.walk(f.node):
        if isinstance(n, ast.Compare) and is_type_of(n.left, p):
            names = n.comparators
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and len(n.args) == 2 and is_name(n.args[0], p):
            names = n.args[1:]
        else:
            continue
        for x in names:
            for y in ast.walk(x):
                if isinstance(y, ast.Name) and y.id in ASKED:
                    out = join(out, ASKED[y.id])
    return out


def is_name(n, p):
    return isinstance(n, ast.Name) and n.id == p


def is_type_of(n, p):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'type' and len(n.args) == 1 and is_name(n.args[0], p)


def api_names():
    path = os.path.join(os.path.dirname(__file__), 'api.json')
    return set(json.load(open(path)))


def has_library_caller(program):
    """names referenced anywhere in the library (attribute or name loads)"""
    used = set()
    for m in program.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute):
                used.add(n.attr)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                used.add(n.id)
    return used


def entries(program, eng):
    """(Func, callable V, positional args) for every public operation"""
    out = []
    node_owner = next(iter(eng.ctx_list))
    it = Interp(eng, node_owner)
    used = has_library_caller(program)
    api = api_names()
    for m in program.modules.values():
        for name, f in m.funcs.items():
            if name == 'cached_value' or name == 'operator_decorator':
                continue
            if not is_entry(f, used, api):
                continue
            v = eng.hget((('mod', m.name), name), None)
            out.append((f, v, args_for(eng, f, f.params())))
    for c in program.classes.values():
        for k in c.mro():
            for name, f in k.methods.items():
                if c is not k and (c.find(name) is not f):
                    continue
                if not is_entry(f, used, api):
                    continue
                if c is not k and not (c.name in BUILDER_CLASSES):
                    continue
                raw = eng.hget((('cls', k.name), name), None)
                region = 'L' if c.name in BUILDER_CLASSES or name == '__init__' else 'E'
                s = ('T', 'inst:' + c.name, ())
                if region == 'L':
                    s = ('L', ('entry:%s.%s' % (c.name, name),), 'inst:' + c.name)
                selfv = V(('o', ('E', s) if region == 'E' else s))
                bound = BOT
                for x in raw:
                    if x[0] == 'F':
                        bound = join(bound, V(('M', x, selfv)))
                    elif x[0] == 'cm':
                        bound = join(bound, V(('M', x[1], V(('K', c.name)))))
                    elif x[0] == 'sm':
                        bound = join(bound, V(x[1]))
                    elif x[0] == 'prop':
                        bound = join(bound, V(('M', x[1], selfv)))
                out.append((f, bound, args_for(eng, f, f.params()[1:])))
    return out


def is_entry(f, used, api):
    name = f.name
    if name.startswith('__') and name.endswith('__'):
        return True
    if name.startswith('_'):
        return name not in used
    key = '%s.%s' % (f.cls.name, name) if f.cls else '%s.%s' % (f.module.name, name)
    return key in api or name not in used


def args_for(eng, f, params):
    defaults = f.defaults()
    out = [eng.modular_arg(f, p, defaults) for p in params]
    if f.node.args.vararg:
        out.append(contract(f, f.node.args.vararg.arg))
    return out


def modular(program):
    """operations analysed once, for every argument their contract admits"""
    used = has_library_caller(program)
    api = api_names()
    out = set()
    for f in program.funcs.values():
        if f.parent is not None or f.name.startswith('<') or f.name in ('cached_value', 'operator_decorator'):
            continue
        if f.cls is not None and f.cls.name in BUILDER_CLASSES:
            continue
        if is_entry(f, used, api) and f.name not in ('__setitem__', '__delitem__'):
            out.add(f.qual)
    return out
