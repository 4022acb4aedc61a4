"""The property table; tools/gen.py writes properties.jsonl and MANIFEST.json from it."""

CLAIMED = []
DECLINED = []


def claim(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    CLAIMED.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                        mech=mech, technique=technique, note=note, observe=observe))


def decline(id, title, statement, over, text, why, files, mech, reason):
    DECLINED.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                         mech=mech, reason=reason))


ALLFILES = ['boxes.py', 'cached.py', 'crystals.py', 'dualops.py', 'insertion.py', 'operators.py', 'partitions.py',
            'permutations.py', 'polynomials.py', 'symmetric.py', 'tableaux.py', 'utils.py', 'vectors.py', 'vst.py', 'words.py']
OWN = 'whole-program ownership/aliasing analysis by abstract interpretation of the syntax tree'

claim('C01', 'Operations never change their arguments or the object they are called on',
      'No public operation changes in place a partition, tableau, polynomial, vector, permutation, word, valued-set tableau, list, '
      'set or dict passed to it, nor the object it is called on; results are new values. Filling in a value that an object computes '
      'lazily from itself alone is not a change.',
      ['inputs', 'histories'], 'every public operation, every argument it accepts, every later use of the same object',
      'The tests use an argument once and compare the result; an argument altered on one branch, or through an alias two calls '
      'away, only shows when somebody uses it again.',
      ALLFILES, [('value semantics: results built from copies', 'polynomials.py Polynomial.__add__/__mul__, vectors.py Vector, tableaux.py Tableau.add/set/remove'),
                 ('lazily filled attributes', 'permutations.py Permutation.right_descent_set, __len__; tableaux.py Tableau.string_array; vst.py ValuedSetTableau.__repr__')],
      OWN,
      'Sound for the construct kinds met in the library, given that callers pass the types listed in sa/contracts.py; crystal-graph '
      'generator objects, which exist to be filled in step by step, are exempt as receivers.')

claim('C03', 'Memoised answers and library-wide state never change once computed',
      'What an operation has remembered for later calls is complete when it is stored and is never altered afterwards, by the library '
      'itself or through a result; a remembered answer is never a one-shot iterator nor a collection the caller still owns. No '
      'operation changes any other library-wide state.',
      ['histories'], 'every sequence of public calls in one process',
      'Tests run each function on fresh inputs in a fixed order; damage to a remembered answer appears only in a later call with the same key.',
      ['cached.py', 'permutations.py', 'partitions.py', 'tableaux.py', 'symmetric.py', 'insertion.py', 'vst.py'],
      [('decorator that remembers results', 'cached.py cached_value'), ('hand-written tables', 'permutations.py *_WORDS, *_CACHE; partitions.py PARTITIONS; insertion.py HSTATE_CACHE; symmetric.py MONOMIAL_PRODUCT_CACHE')],
      OWN + ', with publication of stored values',
      'Sound for the construct kinds met in the library; the only permitted in-place change is appending a level to the per-key list '
      'of a module-level defaultdict.')

claim('C13', 'Computing operations print nothing, read nothing and write nothing',
      'Only operations that exist to print, compare interactively or export (print_..., compare..., crystal graph file output: write_dotfile, generate and the all of the crystal generators) do '
      'input or output; every other operation, and importing the library, has no effect on the console, files or other processes. '
      'A diagnosis printed immediately before an exception is raised is allowed.',
      ['inputs', 'programs'], 'every call chain from a public operation or an import',
      'The test runner captures output and never looks at it; a print or prompt on a rare branch blocks or pollutes a user session only.',
      ALLFILES, [('show/export operations', 'partitions.py Partition.print_*, permutations.py Permutation.print_*, vectors.py Vector.print_matrix, operators.py compare*, crystals.py CrystalMixin.write_dotfile/generate')],
      'interprocedural effect analysis over the whole-program call graph',
      'Every call site of an I/O primitive is classified by the call chains that reach it.')

claim('C15', 'Linear operations carry every term over, weighed by its coefficient once',
      'In the operations that are linear, every term of the operand contributes, with its coefficient as a factor exactly once, and '
      'contributions that meet in one term are added up. These are: adding, subtracting, negating, scaling and multiplying polynomials, vectors and box '
      'operators; dividing them by a number; truncating, substituting into and evaluating polynomials, taking their coefficients; the '
      'parts of lowest and highest degree, writing a symmetric polynomial in variables, negating beta; every expansion; the operators on shapes in '
      'operators.py; collecting counts into a symmetric polynomial. So doubling the operand doubles the answer. In the same way the recursive '
      'counts of tableaux and the quasisymmetric function of a word use the answer for the smaller case once in each contribution.',
      ['inputs'], 'every linear operation, every operand with any coefficients',
      'A test on a single shape has coefficient one everywhere, where a coefficient left out or used twice makes no difference.',
      ['polynomials.py', 'vectors.py', 'symmetric.py', 'operators.py', 'boxes.py', 'tableaux.py', 'words.py', 'permutations.py'],
      [('arithmetic', 'polynomials.py Polynomial, vectors.py Vector, boxes.py BoxOperator'),
       ('operators on shapes', 'operators.py operator_shifted_add, operator_shifted_row_remove, operator_shifted_column_remove, operator_AL/AR/R/C'),
       ('counts and quasisymmetric functions', 'tableaux.py Tableau._count_*, words.py Word.quasisymmetrize'),
       ('expansions', 'symmetric.py SymmetricPolynomial *_expansion, _vectorize, polynomial')],
      'degree inference by abstract interpretation: the power of an unknown factor every value carries',
      'A factor of degree nought (a sign, a power of beta, a binomial coefficient) that is wrong is not seen.')

claim('C16', 'The answers of one operation are all of one kind',
      'A public operation answers the same kind of thing for all of its inputs: not a tuple for some and a list, set, one-shot iterator or '
      'view for others, not a string or a number where it otherwise answers a collection, not objects of unrelated classes; and the '
      'members of a collection it returns or generates are of one kind too. Numbers, polynomials and vectors count as one kind, None '
      '(there is no answer) does not count, and Tableau.get, InsertionState.get and indexing a crystal are exempt.',
      ['inputs', 'programs'], 'every public operation, every argument of the documented types',
      'A list that comes back instead of a tuple on a rare branch compares unequal, cannot be hashed or used as a key, and is noticed '
      'by no test that does not take that branch.',
      ALLFILES, [('partitions, words and boxes are tuples; fillings are sets of tableaux', 'partitions.py Partition.trim, sort, transpose, rims; tableaux.py Tableau.semistandard and its variants; words.py Word')],
      'type inference for all answers by abstract interpretation of the syntax tree',
      'Kinds are inferred for the argument types in sa/contracts.py; a value of unknown kind is not judged.')

claim('C17', 'No round of a loop and no recursive call leaves everything as it was',
      'Every round of a while loop changes something that the test of the loop or the branches in it look at, or leaves the loop; '
      'and no operation calls itself with exactly the arguments it was given. So no operation spins on the spot, whatever its input.',
      ['inputs'], 'every while loop and every recursive call, every path through the body',
      'A loop that stands still on one branch hangs the session for the inputs that take it; a test that hangs is never written.',
      ALLFILES, [('loops that walk along a diagonal, a chain, a queue or a cycle', 'dualops.py, partitions.py skew_key and find_shifted_inner_corner, crystals.py istrings and components, permutations.py cycles, tableaux.py strips'),
                 ('recursion on smaller shapes and words', 'partitions.py, tableaux.py, symmetric.py, polynomials.py Polynomial.__pow__')],
      'path-sensitive progress analysis over the syntax tree with comparison facts',
      'A change counts as progress: that it goes in the right direction is not decided (see C52).')

claim('C18', 'Only operations meant to say there is none may end without an answer',
      'An operation that gives answers gives one for every valid input: no path reaches the end of its body, a bare return or return '
      'None, or hands on such an end of another operation. The exceptions are the operations for which None is an answer: crystal '
      'operators that do not apply, corners, descents and last boxes that do not exist, missing boxes, words of no involution, powers '
      'that do not exist, the degree of zero, the hinge and the printable form of no partition.',
      ['inputs'], 'every public operation, every path through it',
      'A case that a chain of tests forgets yields None, which prints as nothing, counts as false and fails much later.',
      ALLFILES, [('case distinctions', 'tableaux.py, partitions.py, insertion.py transitions, vst.py transitions, symmetric.py SymmetricMonomial operators')],
      'path-sensitive termination analysis of every function, with comparison, choice and alternative facts',
      'Answers read out of containers (dict.get) and variables that start as None are not followed; the last case of four operations is '
      'complete for reasons outside their code (listed in the evidence).')

claim('C19', 'Every variable has a value on every path before it is read',
      'No operation reads a local variable on a path on which it was never given a value: not after a loop that had nothing to go '
      'through, not after a chain of cases of which none applied, not after an exception that was caught. No valid input makes an '
      'operation fail with UnboundLocalError.',
      ['inputs'], 'every local variable of every function, every path with no, one or two rounds of each loop',
      'Whether the variable is missing depends on the input taking the one branch, or on a collection being empty.',
      ALLFILES, [('variables given in branches and loops', 'insertion.py transitions, tableaux.py enumerations, vst.py transitions, symmetric.py expansions')],
      'path-sensitive definite-assignment analysis',
      'Contradictory combinations of tests are left out; variables read by nested functions when they run are not judged, nor handlers '
      'that end by raising again.')

claim('C20', 'Named functions and shorthands are built from what their names say',
      'Every named symmetric function is the generating function of the tableaux its name says (semistandard, marked, shifted marked, '
      'reverse plane partitions; set-valued for the K-theoretic ones; primes on the diagonal for the Q, S forms only) with shape, inner '
      'shape and number of variables handed on in their places; every expansion expands in the function it is named after, '
      'from the lowest-degree end for the G, GP, GQ and GS functions, with beta negated exactly for the mn_ and mp_ forms; the '
      'shorthands in utils.py lead to the function of that name; the functions of a permutation use that kind of '
      'Hecke words with the matching length and zeta polynomial; the methods of a tableau insertion state go to its own insertion rule; '
      'and counting semistandard tableaux goes over the same strips as listing them.',
      ['inputs'], 'every named function, expansion and shorthand, every shape and number of variables',
      'Many of these names are called by no test, and neighbouring families agree on the small shapes that tests use.',
      ['symmetric.py', 'utils.py', 'permutations.py', 'tableaux.py', 'insertion.py', 'partitions.py'],
      [('families of functions and expansions', 'symmetric.py SymmetricPolynomial stable_grothendieck*, dual_*, transposed_*, *_expansion'),
       ('shorthands', 'utils.py'), ('words, length and zeta polynomials', 'permutations.py Permutation.stable_grothendieck and variants'),
       ('counting and listing over strips', 'tableaux.py Tableau.count_* and semistandard_*')],
      'interprocedural call-tree analysis following constants, arguments and function values',
      'Decides the wiring, not the enumerations it leads to (see the declined C40 and C43). An operation whose calls cannot be resolved is not judged.')

claim('C21', 'Arithmetic means what its signs say, in either order',
      'For polynomials, vectors, symmetric monomials and polynomials, and box operators: a + b, a - b, -a and a * b are the sum, '
      'difference, negative and product of the operands, whichever comes first and whether or not one is a number (vectors and symmetric '
      'polynomials can be added to no number but 0, and multiplied by any) (with the order '
      'of the factors kept for box operators, which do not commute), with no term of either operand left out; and a ** n is the '
      'product of n copies of a, also for permutations, where a negative n is a power of the inverse. No such operation asks for '
      'itself again without end.',
      ['inputs'], 'every arithmetic method of those classes, every branch by kind and value of the operands',
      'Tests subtract vectors from vectors but hardly ever numbers from vectors, vectors from numbers, or operands of which only one has a term.',
      ['polynomials.py', 'vectors.py', 'symmetric.py', 'boxes.py', 'permutations.py'],
      [('arithmetic methods and their reflections', 'polynomials.py Polynomial, vectors.py Vector, symmetric.py SymmetricMonomial and SymmetricPolynomial, boxes.py BoxOperator'),
       ('powers', '__pow__ of Polynomial, Vector, SymmetricMonomial and Permutation')],
      'abstract interpretation over noncommutative linear forms in the operands, and over linear forms of exponents',
      'Answers built in nested loops (products term by term) are left to C15; powers with negative exponents of polynomials are not judged.')

claim('C22', 'Grothendieck functions are homogeneous in beta and the variables',
      'In the stable Grothendieck functions (G, GP, GQ, GS, their doublebar forms, slow forms, and the functions of a permutation) every term of degree d '
      'comes with beta to the power d - |mu| + |nu| (d minus the length of the permutation); in the dual ones (g, gp, gq, gs, j, jp, jq, js, '
      'slow and refined forms) with the power |mu| - |nu| - d, and with the sign of (-1) to that power for g, gp, gq, gs; the mn_ and mp_ '
      'forms have beta negated; and Schur functions have no beta. For all shapes, skew ones too, and all numbers of variables.',
      ['inputs'], 'every named function, every pair of shapes and number of variables',
      'Tests compare functions of straight shapes or among themselves; a wrong power of beta that only shows for skew shapes, or that cancels in both, passes them.',
      ['symmetric.py', 'permutations.py'],
      [('powers of beta', 'symmetric.py _vectorize, _slow_vectorize, stable_grothendieck*, *_doublebar, dual_*, slow_transposed_*, negate_beta; permutations.py *stable_grothendieck')],
      'interprocedural abstract interpretation: dimensional analysis over linear forms',
      'Takes the counts of tableaux and words for what they are: numbers without beta.')

claim('C29', 'All arithmetic is exact',
      'Every number the library computes from integers and polynomials is an integer or a polynomial with integer coefficients; no '
      'operation goes through floating point, however large the numbers get.',
      ['inputs'], 'every public operation on integer and polynomial arguments of any size',
      'Rounding is invisible for the small numbers in the tests and appears only above 2**53.',
      ALLFILES, [('integer division throughout', 'polynomials.py Polynomial.__truediv__/__floordiv__, vectors.py Vector.rref, permutations.py Permutation.__pow__')],
      'whole-program type inference by abstract interpretation',
      'Sound for the construct kinds met in the library, given that callers pass no floats.')

claim('C32', 'Objects and remembered answers share no collection with their callers',
      'A list, set or dict returned by a public operation belongs to the caller: changing it changes no later answer and no object. '
      'A list, set or dict given to a constructor stays the caller\'s too: changing it later does not change the object.',
      ['histories'], 'every sequence of public calls interleaved with changes the caller makes to returned or passed collections',
      'No test changes a result and asks again.',
      ALLFILES, [('copies on the way out', 'cached.py cached_value; permutations.py get_atoms, right_descent_set'), ('copies on the way in', 'polynomials.py Polynomial.__init__, vectors.py Vector.__init__, tableaux.py Tableau.__init__')],
      OWN,
      'Classifies the outermost collection of every result, of everything yielded and of every attribute, and the collections nested inside a result.')

claim('C12', 'An option given as zero is not treated as an option left out',
      'Wherever an optional argument may be a number (a length bound, degree bound, row, part bound, variable index, number of terms, ...), '
      'passing 0 means zero: the result differs from the one for an omitted option exactly as the number 0 requires. Only None, or '
      'leaving the argument out, means that no value was given.',
      ['inputs'], 'every public operation with an optional numeric argument, every call chain the option travels along',
      'The tests pass positive numbers or leave the option out.',
      ALLFILES, [('None means omitted', 'permutations.py get_atoms / hecke_levels (length_bound, ascent_bound), partitions.py Partition.generate (max_part), polynomials.py X(i), symmetric.py SymmetricPolynomial.functional_vector / degree_bound, tableaux.py Tableau.find(row)')],
      'whole-program type inference plus reaching definitions: truth tests on option values that can be both None and a number',
      'Every truth test whose operand carries an optional numeric parameter is examined; comparisons with sentinels other than None are not.')

claim('C14', 'No operation contains a step that fails whatever it is given',
      'Every name an operation reads exists, every call of a library function fits that function\'s parameters, every attribute or '
      'method it uses exists on some value that can be there, every operator is defined for some operands that can be there, and no '
      'read-only property is assigned: no branch of a public operation ends in NameError, AttributeError or TypeError for every valid input that takes it.',
      ['programs', 'inputs'], 'every branch of every operation reachable from a public entry point',
      'A branch the tests never take can be broken outright (a renamed helper, a dropped parameter) without any test failing.',
      ALLFILES, [('rare branches', 'polynomials.py divide_linear, permutations.py Permutation.__pow__, partitions.py Partition.shifted_ribbons, crystals.py generator constructors')],
      'whole-program name, arity, attribute and operand type resolution by abstract interpretation',
      'Reports only constructs that fail for all operands that can reach them; failures on some operands only are outside the claim.')

ORD = 'order-taint dataflow analysis over the syntax tree with inferred types'

claim('C02', 'A remembered answer is kept under a key that determines it',
      'Wherever the library remembers an answer (a memo table, or an attribute an object fills in the first time it is asked), every '
      'input the answer depends on is part of the key it is stored and looked up under, and no two operations share a table. So a '
      'memoised operation answers a call exactly as if it had never been called before.',
      ['histories', 'inputs'], 'every sequence of calls of the memoised operations, with every combination of arguments and options',
      'A missing key component only shows when two calls that differ in just that component happen in one process, in the wrong order.',
      ['cached.py', 'partitions.py', 'permutations.py', 'insertion.py', 'symmetric.py', 'tableaux.py', 'vst.py'],
      [('decorator keyed by all arguments', 'cached.py cached_value'), ('hand-written keys', 'partitions.py Partition.generate; permutations.py hecke_levels, symplectic_hecke_levels, involution_hecke_levels, get_*_words, get_*atoms*; symmetric.py SymmetricMonomial._multiply; insertion.py HState.push'),
       ('one table per operation', 'module-level *_CACHE dictionaries')],
      'backward dependence (reaching definitions, data and control) from each stored value to its key',
      'Decides key completeness per store; called functions are taken to depend on their arguments and on constants only (C03, C30).')

claim('C04', 'Equal objects hash equally',
      'Two objects of one class that compare equal (Polynomial, index dictionaries, Vector, Permutation, Tableau, SymmetricMonomial, '
      'SymmetricPolynomial, ValuedSetTableau, insertion states) have equal hashes, in whatever order their terms or boxes were put in; a constant Polynomial hashes like the '
      'integer it equals. So they find each other in sets, dictionaries and memo tables.',
      ['inputs', 'histories'], 'all pairs of equal objects, however they were built',
      'Equal objects built along different routes are rarely compared by hash in a test.',
      ['polynomials.py', 'vectors.py', 'permutations.py', 'tableaux.py', 'symmetric.py', 'vst.py', 'insertion.py'],
      [('hash from sorted or frozen contents', 'HashableDict.__hash__, Vector.__hash__, Tableau.__hash__, SymmetricPolynomial.serialize'), ('hash from the text', 'Polynomial.__hash__')],
      'attribute-read comparison of __eq__ and __hash__ plus ' + ORD,
      'Granularity: attributes and iteration order.')

claim('C05', 'The text and serialisation of an object depend on its value only',
      'Equal polynomials, vectors, symmetric functions, permutations, tableaux and box operators print and serialise identically, '
      'whatever order their terms or boxes were created in: the iteration order of a set or dictionary never shows in a text, and '
      'terms are sorted by something that tells them all apart.',
      ['inputs', 'histories'], 'every object, every way of building it',
      'Tests print objects built one way; ties in a sort key and insertion order only show for particular terms.',
      ['polynomials.py', 'vectors.py', 'symmetric.py', 'permutations.py', 'tableaux.py', 'boxes.py', 'vst.py', 'words.py'],
      [('canonical term order', 'polynomials.py Polynomial.__repr__, index_to_str; vectors.py Vector.__repr__; symmetric.py SymmetricPolynomial.__repr__, serialize; tableaux.py Tableau.string_array, serialize')],
      ORD, 'Covers every function that returns text, __repr__, serialize and tex.')

claim('C30', 'Answers depend on the arguments only, not on chance, clock or process',
      'No operation uses random numbers, the time, the environment, memory addresses or per-process hash values: two processes that '
      'make the same calls get the same answers in the same order.',
      ['programs', 'inputs'], 'every operation, every process',
      'A test run is one process; a result that varies between processes passes most of the time.',
      ALLFILES, [('sets of integers and tuples only, where order matters', 'permutations.py get_reduced_words; symmetric.py; tableaux.py strip enumerations')],
      'name resolution over the whole library plus ' + ORD, 'Sound for the sources listed in sa/checks/c30.py.')

claim('C06', 'An option that is given is honoured, and stays itself on the way down',
      'Every parameter an operation accepts has an effect on what it answers or does, and wherever an operation passes the work on '
      '(to itself recursively, to a private worker, to another class) and the callee takes an option of the same name '
      '(setvalued, diagonal_primes, degree_bound, length_bound, ascent_bound, hecke, strict, even_parts, shifted, fpf, signed, '
      'multisetvalued, is_symplectic, ...), it hands on the value it was given itself: never the default, a constant, or another '
      'option. An object built with such an option uses it in every call its methods make.',
      ['inputs'], 'every operation, every option, every call path',
      'A test uses an option at one value and at the top level; an option lost in a recursive or nested call shows only for larger '
      'shapes or for the value nobody tried.',
      ['partitions.py', 'permutations.py', 'tableaux.py', 'symmetric.py', 'crystals.py', 'insertion.py', 'words.py', 'utils.py', 'polynomials.py', 'vectors.py'],
      [('hand-down of options', 'Tableau.count_* / semistandard_* and their private workers; SymmetricPolynomial._stable_grothendieck*(degree_bound); Permutation.*_hecke_words/levels; crystals generators')],
      'interprocedural dependence analysis: backward slices (data and control) of results and of the arguments at every resolved call',
      'A parameter that influences the result is taken to be honoured; whether it does the right thing is not decided. Options that are '
      'deliberately inert or stopped are listed in sa/checks/c06.py with reasons.')

claim('C33', 'An answer that may be None is looked at before it is used',
      'Operations that answer None for "there is none" (crystal operators e_i and f_i, from_involution_word and from_fpf_involution_word '
      'on words that are not reduced, shifted corners, last_descent, strips that do not fit, negative powers, boxes past the end of a row) '
      'are honoured by everything in the library that calls them: no operation dereferences, iterates, unpacks or calculates with such '
      'an answer without having tested it, so "there is none" never turns into a crash inside another operation.',
      ['inputs'], 'every call of a partial operation, every input for which it has no answer',
      'Whether None comes back depends on the input; a test of the caller uses inputs where there is an answer.',
      ['permutations.py', 'partitions.py', 'tableaux.py', 'crystals.py', 'words.py', 'dualops.py', 'vst.py', 'insertion.py', 'polynomials.py'],
      [('None tested by the callers', 'CrystalMixin users of f_crystal_operator / e_crystal_operator; Permutation.involution_bruhat_covers, fpf_involution_bruhat_covers; Partition.remove_shifted_inner_corner')],
      'nullness analysis: partial-operation summaries (with constant-argument pruning) and guard dominance at each use',
      'A test that mentions the value on the way counts as a look, whatever it tests. Partial operations are those with an explicit empty '
      'return or a single conditional return; operators reached through arithmetic symbols are not followed.')

claim('C07', 'Generators over one remembered list can be interleaved or abandoned',
      'Operations that yield answers one at a time while they fill a remembered list or table (hecke_levels and its orthogonal and '
      'symplectic forms, Partition.generate, and the words built on them) give every caller the full sequence, in order, whether '
      'another such generator with the same key is advanced in between, the generator is left half way, or it raises: what is '
      'remembered for later calls is never a part taken for the whole.',
      ['schedules', 'histories'], 'every interleaving of next() calls on generators sharing a key, every point at which one is dropped',
      'A test runs one generator to its end before it makes the next.',
      ['permutations.py', 'partitions.py'],
      [('levels appended only where they are next', 'permutations.py hecke_levels, orthogonal_hecke_levels, symplectic_hecke_levels'),
       ('table filled after the last yield', 'partitions.py Partition.generate')],
      'control-flow graph dataflow over generator bodies: what is read before a yield is stale after it',
      'Treats every yield as a point where all other code may run; covers each generator that reads or writes a memo table itself or through a nested generator.')

claim('C08', 'A one-shot iterator is gone through once',
      'No operation goes twice through a generator, map, zip, filter or reversed object, asks whether it is empty by its truth, or keeps '
      'one where a later call will find it used up. So an operation never silently works on the empty rest of its input.',
      ['inputs', 'histories'], 'every operation and every path that goes through an iterator, helpers included',
      'The second pass finds nothing and raises nothing: only some results get smaller, on some branch.',
      ALLFILES, [('generators turned into lists and sets before reuse', 'permutations.py, symmetric.py, tableaux.py, crystals.py, partitions.py'), ('attributes that are collections', 'crystals.py, vst.py, vectors.py')],
      'whole-program type inference plus reaching definitions and path reachability between traversals',
      'Follows local names, helper parameters and attributes; an iterator that is put into a collection before anything has gone through it is not followed further.')

claim('C09', 'No collection is changed while it is gone through',
      'No operation adds to, removes from or reorders a list, set or dictionary inside a loop over that same collection, in the loop itself or in a '
      'function the loop calls. So no element is skipped or met twice and no loop ends in RuntimeError. (A list that is only added to at its end '
      'while it is gone through, as a worklist, is not meant.)',
      ['inputs'], 'every loop over a collection, every change reachable from its body',
      'Python lists allow it and skip an element; for sets and dictionaries it fails only when the change happens to occur before the last round.',
      ALLFILES, [('copies before deletion', 'polynomials.py Polynomial.__add__; vectors.py Vector.__add__; tableaux.py; permutations.py level generators')],
      'must-alias between iterated and mutated collections, with interprocedural change summaries and control-flow reachability',
      'Two different names are taken for the same collection when one is assigned from the other.')

claim('C10', 'Functions handed out keep what they were made with',
      'The operators the library makes (operator_AL, operator_AR, operator_R, operator_C, operator_shifted_..., insertion and inverse insertion functions of the crystal '
      'generators, printers and multipliers of vectors) answer every call with the indices and options they were made with: no call changes what the next '
      'one answers, none uses up an iterator it was made with, and functions made in a loop do not all refer to its last round. '
      'No operation changes the default of one of its own parameters.',
      ['histories'], 'every function, lambda and generator that outlives the code that makes it; every sequence of calls to it',
      'Tests make an operator, apply it once and throw it away.',
      ALLFILES, [('closures', 'operators.py operator_*; crystals.py forward, backward, hecke, inverse_hecke; symmetric.py and vectors.py printer/multiplier'), ('shared defaults', 'polynomials.py Polynomial.__init__, vectors.py Vector.__init__, symmetric.py')],
      'escape analysis of nested functions and of what they capture',
      'Filling a captured memo dictionary counts as remembering, which C02 and C03 judge.')

claim('C11', 'Assertions only check: running with python -O changes no answer',
      'No assertion has an effect that anything after it relies on: it changes no value, takes nothing from an iterator or list, binds no name, and no '
      'operation catches AssertionError or asks __debug__ to choose its answer. So for every valid input the library answers alike with assertions on and off.',
      ['programs', 'inputs'], 'every assert statement and everything it calls; every exception handler',
      'The tests always run with assertions on.',
      ALLFILES, [('assert on invariants', '188 assert statements, most of them in tableaux.py, permutations.py, insertion.py, vst.py and crystals.py')],
      'interprocedural effect analysis of asserted expressions, and handler reachability',
      'Filling lazily computed attributes and memo tables is not an effect.')

VALUES = ('The property equates or bounds values computed by two different recursions over unboundedly many shapes; no dataflow, type or effect '
          'argument over the source determines the coefficients, and comparing computed values would be testing, not static analysis.')

decline('C40', 'Grothendieck functions are symmetric and expand as the theory states',
        'G, GP, GQ and their duals g, gp, gq (and j, jp, jq, doublebar and transposed forms) are symmetric, and expand in the Schur, P- or Q-Schur and '
        'Grothendieck bases with the integrality and positivity the theory states; *_expansion followed by resummation gives the function back.',
        ['inputs'], 'all shapes and numbers of variables', 'Tests cover a few small shapes.',
        ['symmetric.py', 'utils.py'], [('expansions', 'SymmetricPolynomial._expansion and *_expansion')],
        VALUES + ' What their code settles is claimed apart: that every function is built from what its name says (C20) and that expansions carry every coefficient over (C15).')
decline('C41', 'Cauchy identities and duality of bases',
        'The pairs (G, g), (GP, gq), (GQ, gp) are dual: the truncated Cauchy kernel equals the sum of products over all shapes.',
        ['inputs'], 'all truncation degrees', 'Tests compare one truncation.', ['symmetric.py', 'utils.py'],
        [('kernel and dual functions', 'SymmetricPolynomial.kernel, shifted_kernel; dual_stable_grothendieck_*')], VALUES)
decline('C42', 'Insertion algorithms are bijections and their inverses undo them',
        'hecke, orthogonal_hecke and symplectic_hecke insertion followed by their inverse return the word and the recording, for every word of the right kind, '
        'and the insertion tableau is increasing (or the shifted analogue) with the right shape.',
        ['inputs'], 'all words', 'Tests enumerate words of a few small groups.', ['insertion.py', 'tableaux.py'],
        [('forward and inverse transitions', 'insertion.py HState/FState._*_transition, _inverse_*_transition')],
        'A bijection proof needs an inductive invariant over tableaux of unbounded shape and entry arithmetic (parities, comparisons of neighbours); that is theorem proving or enumeration, outside static analysis.')
decline('C43', 'Fast counting recursions agree with enumeration and with the slow definitions',
        'count_* and *_counts equal the number of tableaux the matching enumerations yield, and stable_grothendieck_* equals slow_* for all shapes.',
        ['inputs'], 'all shapes, all numbers of variables', 'Tests compare small shapes.', ['tableaux.py', 'symmetric.py'],
        [('two routes', 'Tableau.count_* vs semistandard_*; KOG_counts/KLG_counts vs KOG/KLG; symmetric.py slow_* vs fast')],
        VALUES + ' That both go over the same strips with the same constants is part of C20.')
decline('C44', 'Pieri rules hold', 'GP and GQ Pieri coefficients computed from rims equal the products of polynomials; KOG and KLG counts give the structure constants.',
        ['inputs'], 'all strict partitions and row lengths', 'Tests check small shapes.', ['tableaux.py', 'symmetric.py', 'partitions.py'],
        [('rim recursions', 'Tableau._KOG_count_helper, _KLG_count_helper; Partition.rims')], VALUES)
decline('C45', 'Growth diagrams agree with insertion', 'The last row and column of growth_diagram, shifted_growth_diagram and symplectic_growth_diagram are the shapes insertion produces for all words.',
        ['inputs'], 'all words and involution matrices', 'Tests enumerate small words.', ['partitions.py', 'insertion.py'],
        [('local rules', 'Partition.growth_diagram, shifted_growth_diagram')], VALUES)
decline('C46', 'Crystal operators are inverse to each other and preserve the insertion tableau',
        'e_i undoes f_i wherever f_i is defined, weights move by a simple root, and reading words of one component have one insertion tableau.',
        ['inputs', 'histories'], 'all tableaux, words and operators', 'Tests check small crystals.', ['crystals.py', 'tableaux.py', 'words.py'],
        [('operators', 'Tableau.e_crystal_operator/f_crystal_operator, Word.*')],
        'The two operators share no code from which inverse behaviour follows; it depends on bracketing of the concrete reading word.')
decline('C47', 'Little bumps permute involution words', 'little_bump, involution_little_bump and fpf_involution_little_bump terminate and send words of one permutation bijectively to words of its neighbours.',
        ['inputs'], 'all words', 'Tests check small words.', ['permutations.py'], [('bumps', 'Permutation.little_bump and its involution forms')],
        'Termination and bijectivity rest on a combinatorial theorem about the group, not on a measure visible in the code.')
decline('C48', 'Valued-set tableau transitions are sign-reversing involutions', 'Each transition of vst.py applied twice is the identity, preserves weight and changes the stated statistic.',
        ['inputs'], 'all valued-set tableaux', 'Tests enumerate small shapes.', ['vst.py'], [('transitions', 'ValuedSetTableau.transition*, middle_transition')],
        'The case analysis depends on the values of up to six boxes and their groups; showing that the branches are mutually inverse needs symbolic execution of all of them, which is a different family of technique.')
decline('C49', 'Enumerations are complete and without repetition', 'Partition.generate, subpartitions, rims, Permutation.all / involutions, the tableau generators and word generators yield each object of their kind exactly once.',
        ['inputs'], 'all sizes', 'Tests count small cases.', ['partitions.py', 'permutations.py', 'tableaux.py', 'words.py'], [('generators', 'Partition.generate and the others')],
        'Completeness quantifies over the objects not produced; nothing in the source text bounds them.')
decline('C50', 'The permutation group laws hold', 'Permutation multiplication is associative with inverses; length, descent sets, Demazure product and Bruhat order satisfy their axioms; words of a permutation multiply to it.',
        ['inputs'], 'all signed permutations', 'Tests cover small ranks.', ['permutations.py'], [('group operations', 'Permutation.__mul__, __mod__, inverse, __len__')], VALUES)
decline('C51', 'Polynomial arithmetic satisfies the ring laws', 'Addition and multiplication of Polynomial, Vector and SymmetricPolynomial are associative, commutative and distributive, and substitution is a ring homomorphism.',
        ['inputs'], 'all polynomials', 'Tests use a few polynomials.', ['polynomials.py', 'vectors.py', 'symmetric.py'], [('arithmetic', 'Polynomial.__add__, __mul__, substitute')],
        VALUES + ' That each operator stands for its sign in either order is claimed as C21.')
decline('C52', 'Every operation terminates on valid input', 'No public operation loops or recurses without end on arguments of the documented kind.',
        ['inputs'], 'all valid arguments', 'A test that hangs is never written.', ALLFILES, [('loops and recursion', 'growth of chains, Little bumps, insertion paths, rim recursions')],
        'Insertion paths, Little bumps and chains of transitions terminate by combinatorial theorems with no syntactic ranking function; a partial analysis could not claim the property. What every loop and recursion must do to move at all is claimed as C17.')
decline('C53', 'Operators on shapes satisfy their commutation relations', 'The box, strip and removal operators satisfy the (K-theoretic) commutation and Yang-Baxter type relations compare() explores.',
        ['inputs'], 'all shapes and indices', 'Tests compare a finite range.', ['operators.py', 'dualops.py', 'boxes.py'], [('operators', 'operators.py operator_*, dualops.py, boxes.py BoxOperator')], VALUES)
