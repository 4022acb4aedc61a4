"""(name, [(file, old, new)...], [checks that must fire]) and behaviour-preserving rewrites."""
BROKEN = [
    ('capture-coeffs', [('polynomials.py', 'self.coeffs = dict(coeffs)', 'self.coeffs = coeffs')], ['C32']),
    ('expose-cache', [('cached.py', 'return value.copy() if isinstance(value, (dict, list, set)) else value', 'return value')], ['C32']),
    ('expose-rdes', [('permutations.py', 'return set(self._rdes)', 'return self._rdes')], ['C32']),
    ('expose-fpf', [('permutations.py', 'return set(FPF_INVOLUTION_WORDS[oneline])', 'return FPF_INVOLUTION_WORDS[oneline]')], ['C32']),
    ('float-half', [('permutations.py', 'p = n // 2', 'p = int(n / 2)')], ['C29']),
    ('mut-add', [('polynomials.py', 'newcoeffs = self.coeffs.copy()', 'newcoeffs = self.coeffs')], ['C01']),
    ('print-in-transpose', [('tableaux.py', '    def rpp_excess(self):\n', '    def rpp_excess(self):\n        print(self)\n')], ['C13']),
]
QUIET = [
    ('noop', [('polynomials.py', 'newcoeffs = self.coeffs.copy()', 'newcoeffs = dict(self.coeffs)')]),
]
BROKEN += [
    ('zero-length-bound', [('permutations.py', 'length_bound = -1 if length_bound is None else length_bound\n        key = (n, ascent_bound)', 'length_bound = length_bound or -1\n        key = (n, ascent_bound)')], ['C12']),
    ('zero-degree-bound', [('symmetric.py', 'if degree_bound is not None:', 'if degree_bound:')], ['C12']),
    ('zero-row', [('tableaux.py', 'if (row is None or i == row)', 'if (not row or i == row)')], ['C12']),
    ('zero-maxpart', [('partitions.py', 'max_part = n if (max_part is None or max_part > n) else max_part', 'max_part = min(max_part, n) if max_part else n')], ['C12']),
    ('zero-ascent', [('permutations.py', 'if ascent_bound is None or Word.ascents(v) < ascent_bound:', 'if not ascent_bound or Word.ascents(v) < ascent_bound:')], ['C12']),
    ('zero-X', [('polynomials.py', '    if i is None:\n        i = Polynomial.MAX_INT', '    if not i:\n        i = Polynomial.MAX_INT')], ['C12']),
    ('revert-input', [('symmetric.py', "                print('ans =', ans)\n", "                print('ans =', ans)\n                input('\\n\\n')\n")], ['C13']),
    ('revert-pow', [('permutations.py', 'return Permutation.identity()\n        elif', 'return Permutation.identity(self.rank)\n        elif')], ['C14']),
    ('revert-divide', [('polynomials.py', 'self.substitute(i, self.monomial(i) - c)', 'self.substitute(i, x(i) - c)')], ['C14']),
    ('revert-ribbons', [('partitions.py', 'yield (nu[0],) + x, (a,) + y', 'yield [nu[0]] + x, [a] + y')], ['C14']),
]
BROKEN += [
    ('key-gen-even', [('partitions.py', 'key = (n, max_part, max_row, strict, even_parts)', 'key = (n, max_part, max_row, strict)')], ['C02']),
    ('key-gen-maxrow', [('partitions.py', 'key = (n, max_part, max_row, strict, even_parts)', 'key = (n, max_part, strict, even_parts)')], ['C02']),
    ('key-hecke', [('permutations.py', 'key = (n, peak_bound, hecke)', 'key = (n, peak_bound)')], ['C02']),
    ('key-ascent', [('permutations.py', 'key = (n, ascent_bound)', 'key = (n, ascent_bound is None)')], ['C02']),
    ('key-mono', [('symmetric.py', '            MONOMIAL_PRODUCT_CACHE[(mu, nu, n)] = ans\n        return MONOMIAL_PRODUCT_CACHE[(mu, nu, n)]', '            MONOMIAL_PRODUCT_CACHE[(mu, nu)] = ans\n        return MONOMIAL_PRODUCT_CACHE[(mu, nu)]'), ('symmetric.py', 'if (mu, nu, n) not in', 'if (mu, nu) not in')], ['C02']),
    ('key-args', [('cached.py', 'key = tuple(args)', 'key = tuple(args[:2])')], ['C02']),
    ('key-sorted', [('cached.py', 'key = tuple(args)', 'key = tuple(sorted(args, key=str))')], ['C02']),
    ('key-kwargs', [('cached.py', 'def wrapped_f(cls, *args):', 'def wrapped_f(cls, *args, **kw):'), ('cached.py', 'f(cls, *args)', 'f(cls, *args, **kw)')], ['C02']),
    ('table-shared', [('tableaux.py', '@cached_value(KLG_CACHE)', '@cached_value(KOG_CACHE)')], ['C02']),
    ('table-alias', [('symmetric.py', 'SCHUR_Q_CACHE = {}\nSCHUR_P_CACHE = {}', 'SCHUR_Q_CACHE = SCHUR_P_CACHE = {}')], ['C02']),
    ('table-alias2', [('symmetric.py', 'SCHUR_P_CACHE = {}', 'SCHUR_P_CACHE = SCHUR_Q_CACHE')], ['C02']),
    ('table-atoms', [('permutations.py', 'if w not in atoms_d_cache:\n            atoms_d_cache[w] = list(w._get_atoms_d())\n        return list(atoms_d_cache[w])', 'if w not in atoms_b_cache:\n            atoms_b_cache[w] = list(w._get_atoms_d())\n        return list(atoms_b_cache[w])')], ['C02']),
    ('key-push', [('insertion.py', 'if (p, q, arg) not in HSTATE_CACHE', 'if (p, arg) not in HSTATE_CACHE'), ('insertion.py', 'HSTATE_CACHE[(p, q, arg)] =', 'HSTATE_CACHE[(p, arg)] ='), ('insertion.py', 'return HSTATE_CACHE[(p, q, arg)]', 'return HSTATE_CACHE[(p, arg)]')], ['C02']),
    ('key-mismatch', [('symmetric.py', '        if (mu, nu, n) not in', '        if (nu, mu, n) not in')], ['C02']),
    ('new-memo', [('words.py', 'class Word', '_P = {}\n\n\ndef peaks_of(w, strict=False):\n    if w not in _P:\n        _P[w] = [i for i in range(1, len(w) - 1) if w[i] > w[i + 1] or not strict]\n    return tuple(_P[w])\n\n\nclass Word')], ['C02']),
]
QUIET += [
    ('key-inline', [('partitions.py', '            key = (n, max_part, max_row, strict, even_parts)\n', ''), ('partitions.py', 'if key not in PARTITIONS:', 'if (n, max_part, max_row, strict, even_parts) not in PARTITIONS:'),
                    ('partitions.py', 'PARTITIONS[key] = ans', 'PARTITIONS[n, max_part, max_row, strict, even_parts] = ans'), ('partitions.py', 'for mu in PARTITIONS[key]:', 'for mu in PARTITIONS[(n, max_part, max_row, strict, even_parts)]:')]),
    ('key-helper', [('partitions.py', '            key = (n, max_part, max_row, strict, even_parts)\n', '            key = cls._generate_key(n, max_part, max_row, strict, even_parts)\n'),
                    ('partitions.py', '    @classmethod\n    def generate(', '    @classmethod\n    def _generate_key(cls, size, part, row, strict, even):\n        return (size, part, row, strict, even)\n\n    @classmethod\n    def generate(')]),
    ('key-plain-args', [('cached.py', '            key = tuple(args)\n            if key not in cache:\n                cache[key] = f(cls, *args)\n            value = cache[key]', '            if args not in cache:\n                cache[args] = f(cls, *args)\n            value = cache[args]')]),
    ('key-get', [('cached.py', '            key = tuple(args)\n            if key not in cache:\n                cache[key] = f(cls, *args)\n            value = cache[key]', '            key = args\n            try:\n                value = cache[key]\n            except KeyError:\n                value = f(cls, *args)\n                cache[key] = value')]),
    ('multiply-helper', [('symmetric.py', "            ans = defaultdict(int)\n            for alpha in cls._destandardize(n, mu):\n                for blpha in cls._destandardize(n, nu):\n                    gamma = tuple(alpha[i] + blpha[i] for i in range(n))\n                    if Partition.is_partition(gamma):\n                        while gamma and gamma[-1] == 0:\n                            gamma = gamma[:-1]\n                        ans[gamma] += 1\n            MONOMIAL_PRODUCT_CACHE[(mu, nu, n)] = ans\n        return MONOMIAL_PRODUCT_CACHE[(mu, nu, n)]",
                         "            MONOMIAL_PRODUCT_CACHE[(mu, nu, n)] = cls._compute_product(mu, nu, n)\n        return MONOMIAL_PRODUCT_CACHE[(mu, nu, n)]\n\n    @classmethod\n    def _compute_product(cls, mu, nu, n):\n        ans = defaultdict(int)\n        for alpha in cls._destandardize(n, mu):\n            for blpha in cls._destandardize(n, nu):\n                gamma = tuple(alpha[i] + blpha[i] for i in range(n))\n                if Partition.is_partition(gamma):\n                    while gamma and gamma[-1] == 0:\n                        gamma = gamma[:-1]\n                    ans[gamma] += 1\n        return ans")]),
    ('hecke-extract', [('permutations.py', "            level = next_level\n\n        for i, level in enumerate(generate()):\n            if i >= len(HECKE_CACHE[key]):\n                HECKE_CACHE[key].append(level)\n            yield set(level)\n            if length_bound == 0:\n                break\n            length_bound -= 1", "            level = next_level\n\n        i = 0\n        for level in generate():\n            levels = HECKE_CACHE[key]\n            if len(levels) <= i:\n                levels.append(level)\n            yield set(level)\n            if length_bound == 0:\n                return\n            length_bound = length_bound - 1\n            i += 1")]),
    ('words-helper', [('permutations.py', "            SIGNED_REDUCED_WORDS[oneline] = words\n", "            self._remember(oneline, words)\n"), ('permutations.py', '    def get_reduced_words(self):', '    @classmethod\n    def _remember(cls, key, words):\n        SIGNED_REDUCED_WORDS[key] = words\n\n    def get_reduced_words(self):')]),
]

BROKEN += [
    ('key-alias', [('permutations.py', "        key = (n, ascent_bound)\n", "        key = (n, ascent_bound is None)\n"), ('permutations.py', "            if i >= len(HECKE_CACHE[key]):\n                HECKE_CACHE[key].append(level)\n", "            levels = HECKE_CACHE[key]\n            if i >= len(levels):\n                levels.append(level)\n")], ['C02']),
]
BROKEN += [
    ('hash-tableau', [('tableaux.py', 'hash(tuple(sorted(self.boxes.items())))', 'hash(tuple(self.boxes.items()))')], ['C04']),
    ('hash-vector', [('vectors.py', 'hash(frozenset(self.items()))', 'hash(tuple(self.items()))')], ['C04']),
    ('hash-vector2', [('vectors.py', 'hash(frozenset(self.items()))', 'hash((frozenset(self.items()), self.printer))')], ['C04']),
    ('hash-const', [('polynomials.py', '        if self.is_integer():\n            return hash(self.constant_term())\n        return hash(str(self))', '        return hash(str(self))')], ['C04']),
    ('hash-perm', [('permutations.py', '        return hash(self.oneline)\n', '        return hash((self.oneline, self.given))\n'), ('permutations.py', '        self._len = None', '        self._len = None\n        self.given = 1')], ['C04']),
    ('hash-perm-id', [('permutations.py', '        return hash(self.oneline)\n', '        return hash(id(self))\n')], ['C04']),
    ('hash-sym', [('symmetric.py', 'tuple(sorted([(key.serialize(), value) for key, value in self.items()]))', 'tuple((key.serialize(), value) for key, value in self.items())')], ['C04', 'C05']),
    ('hash-outer', [('insertion.py', 'return self.tableau == other.tableau and self.outer == other.outer', 'return self.tableau == other.tableau')], ['C04']),
    ('hash-group', [('vst.py', 'type(other) == type(self) and self.tableau == other.tableau and self.grouping == other.grouping', 'type(other) == type(self) and self.tableau == other.tableau')], ['C04']),
    ('text-index', [('polynomials.py', '        for i in sorted(ind):\n            if ind[i] != 0:\n                s =', '        for i in ind:\n            if ind[i] != 0:\n                s =')], ['C05']),
    ('text-sorter', [('polynomials.py', 'return (c, tuple(ans), tuple(sorted(index.items())))', 'return (c,) + tuple(ans)')], ['C05']),
    ('text-sorter2', [('polynomials.py', 'return (c, tuple(ans), tuple(sorted(index.items())))', 'return c')], ['C05']),
    ('text-vector', [('vectors.py', 'sorted_items = sorted([(printer(key), value) for key, value in self.items()])', 'sorted_items = [(printer(key), value) for key, value in self.items()]')], ['C05']),
    ('text-sym', [('symmetric.py', 'key=lambda m: (sum(m[0].mu), m[0].mu)', 'key=lambda m: sum(m[0].mu)')], ['C05']),
    ('text-tab', [('tableaux.py', 'for x in sorted(v, key=lambda x:(abs(x), x))', 'for x in set(v)')], ['C05']),
    ('text-tab2', [('tableaux.py', "for x in sorted(v, key=lambda x:(abs(x), x))", "for x in sorted(set(v), key=lambda x: abs(x))")], ['C05']),
]
QUIET += [
    ('text-join', [('polynomials.py', "        s = ''\n        filtered = filter(lambda x: self[x] != 0, self.coeffs)\n        for i in sorted(filtered, key=sorter):\n            monomial = Polynomial.index_to_str(i)\n            coeff = str(abs(self[i]))\n            if coeff == \"1\" and monomial != \"\":\n                coeff = \"\"\n            coeff = (\" - \" if self[i] < 0 else \" + \") + coeff\n            s = s + coeff + monomial\n",
                    "        parts = []\n        support = [x for x in self.coeffs if self[x] != 0]\n        support.sort(key=sorter)\n        for i in support:\n            monomial = Polynomial.index_to_str(i)\n            coeff = str(abs(self[i]))\n            if coeff == \"1\" and monomial != \"\":\n                coeff = \"\"\n            parts.append((\" - \" if self[i] < 0 else \" + \") + coeff + monomial)\n        s = ''.join(parts)\n")]),
    ('hash-frozen', [('tableaux.py', 'hash(tuple(sorted(self.boxes.items())))', 'hash(frozenset(self.boxes.items()))')]),
    ('text-indexjoin', [('polynomials.py', "        s = ''\n        for i in sorted(ind):\n            if ind[i] != 0:\n                s = s + ' ' + cls.letters(i)\n                if ind[i] != 1:\n                    s = s + \"^\" + str(ind[i])\n", "        pieces = []\n        for i, e in sorted(ind.items()):\n            if e == 0:\n                continue\n            piece = ' ' + cls.letters(i)\n            if e != 1:\n                piece += '^' + str(e)\n            pieces.append(piece)\n        s = ''.join(pieces)\n")]),
    ('eq-early', [('insertion.py', '        return self.tableau == other.tableau and self.outer == other.outer', '        if self.outer != other.outer:\n            return False\n        return self.tableau == other.tableau')]),
    ('eq-diff', [('polynomials.py', '        return (self - other).nnz() == 0', '        difference = self - other\n        return difference.nnz() == 0')]),
    ('serialize-helper', [('symmetric.py', 'return tuple(sorted([(key.serialize(), value) for key, value in self.items()]))', 'pairs = []\n        for key, value in self.items():\n            pairs.append((key.serialize(), value))\n        return tuple(sorted(pairs))')]),
]
BROKEN += [
    ('det-random', [('tableaux.py', 'class Tableau', 'import random\n\n\nclass Tableau'), ('tableaux.py', '        core = tuple(core)\n', '        core = tuple(core)\n        random.shuffle(core_list) if False else None\n')], ['C30']),
    ('det-strset', [('permutations.py', "join([str(i) for i in self.oneline])", "join({str(i) for i in self.oneline})")], ['C30', 'C05']),
    ('det-id', [('permutations.py', "        return sorted([\n", "        id(self)\n        return sorted([\n")], ['C30']),
]
BROKEN += [
    ('opt-crossed', [('partitions.py', 'cls.printable(mu, shifted=shifted)', 'cls.printable(mu, shifted)')], ['C06']),
    ('opt-unused-primes', [('tableaux.py', 'ans.add(tab.add(row, col, n))\n                        if diagonal_primes or row != col:\n                            ans.add(tab.add(row, col, -n))', 'ans.add(tab.add(row, col, n))\n                        if row != col:\n                            ans.add(tab.add(row, col, -n))')], ['C06']),
    ('opt-rec-const', [('tableaux.py', 'cls._semistandard_marked(max_entry - 1, nu2, lam, setvalued)', 'cls._semistandard_marked(max_entry - 1, nu2, lam, False)')], ['C06']),
    ('opt-swap', [('tableaux.py', 'return cls._semistandard_shifted_marked(max_entry, mu, nu, diagonal_primes, setvalued)', 'return cls._semistandard_shifted_marked(max_entry, mu, nu, setvalued, diagonal_primes)')], ['C06']),
    ('opt-drop-degree', [('symmetric.py', 'return cls._stable_grothendieck_q(num_variables, mu, nu, degree_bound)', 'return cls._stable_grothendieck_q(num_variables, mu, nu, None)')], ['C06']),
    ('opt-drop-degree2', [('symmetric.py', 'return BETA**(sum(nu) - sum(mu)) * cls._vectorize(num_variables, tableaux, BETA, degree_bound)\n\n    @classmethod\n    def stable_grothendieck_q_doublebar', 'return BETA**(sum(nu) - sum(mu)) * cls._vectorize(num_variables, tableaux, BETA)\n\n    @classmethod\n    def stable_grothendieck_q_doublebar')], ['C06']),
    ('opt-hecke', [('permutations.py', 'cls.symplectic_hecke_levels(n, length_bound, ascent_bound, hecke)', 'cls.symplectic_hecke_levels(n, length_bound, ascent_bound)')], ['C06']),
    ('opt-held', [('crystals.py', 'InsertionAlgorithm.inverse_hecke(p, q, multisetvalued=self.multisetvalued)', 'InsertionAlgorithm.inverse_hecke(p, q)')], ['C06']),
]
QUIET += [
    ('opt-helper', [('tableaux.py', '        return cls._semistandard_marked(max_entry, mu, nu, setvalued)\n', '        return cls._marked(mu, nu, max_entry, setvalued)\n\n    @classmethod\n    def _marked(cls, shape, inner, bound, with_sets):\n        if with_sets:\n            return cls._semistandard_marked(bound, shape, inner, True)\n        return cls._semistandard_marked(bound, shape, inner, False)\n')]),
    ('opt-branch', [('permutations.py', '        for level in cls.symplectic_hecke_levels(n, length_bound, ascent_bound, hecke):', '        levels = cls.symplectic_hecke_levels(n, length_bound, ascent_bound) if hecke else cls.symplectic_hecke_levels(n, length_bound, ascent_bound, False)\n        for level in levels:')]),
    ('opt-degree-first', [('symmetric.py', '    @classmethod\n    def _vectorize(cls, n, tableaux, signs=None, degree_bound=None):', '    @classmethod\n    def _vectorize(cls, n, tableaux, signs=None, degree_bound=None, total=None):')]) if 0 else ('opt-none', []),
]
QUIET.pop()
BROKEN += [
    ('none-covers', [('permutations.py', 'if w is not None and w.involution_length ==', 'if w.involution_length ==')], ['C33']),
    ('none-bump', [('permutations.py', "        w = cls.from_involution_word(word, strict=False)\n        assert w.involution_length", "        w = cls.from_involution_word(word)\n        assert w.involution_length")], ['C33']),
    ('none-crystal', [('crystals.py', "        q = q.f_crystal_operator(operator_index, multisetvalued=self.multisetvalued)\n        if q is None:\n            return None\n        else:\n", "        q = q.f_crystal_operator(operator_index, multisetvalued=self.multisetvalued)\n        q = q.destandardize() if 0 else q.transpose()\n        if q is None:\n            return None\n        else:\n")], ['C33']),
]
QUIET += [
    ('none-continue', [('permutations.py', "            if w is not None and w.involution_length == self.involution_length - 1:\n                yield w", "            if w is None:\n                continue\n            if w.involution_length == self.involution_length - 1:\n                yield w")]),
    ('none-helper', [('permutations.py', "    def involution_bruhat_covers(self):", "    @classmethod\n    def _shortened(cls, word, i):\n        return cls.from_involution_word(word[:i] + word[i + 1:])\n\n    def involution_bruhat_covers(self):"), ('permutations.py', "            w = Permutation.from_involution_word(word[:i] + word[i + 1:])\n", "            w = self._shortened(word, i)\n")]),
]
QUIET += [
    ('opt-recall', [('permutations.py', "            SIGNED_REDUCED_WORDS[oneline] = words\n        else:\n            for word in SIGNED_REDUCED_WORDS[oneline]:\n", "            self._keep(oneline, words)\n        else:\n            for word in self._recall(oneline):\n"), ('permutations.py', '    def get_reduced_words(self):', '    @classmethod\n    def _recall(cls, key):\n        return SIGNED_REDUCED_WORDS[key]\n\n    @classmethod\n    def _keep(cls, key, words):\n        SIGNED_REDUCED_WORDS[key] = words\n        return SIGNED_REDUCED_WORDS[key]\n\n    def get_reduced_words(self):')]),
]

BROKEN += [
 ('a-hecke-key', [('permutations.py', '        key = (n, ascent_bound)\n', '        key = (n, ascent_bound or 0)\n')], ['C02']),
 ('a-hecke-key2', [('permutations.py', '        key = (n, peak_bound, hecke)\n', '        key = (n, peak_bound and hecke)\n')], ['C02']),
 ('a-strkey', [('cached.py', 'key = tuple(args)', 'key = str(args[0])')], ['C02']),
 ('a-hashkey', [('cached.py', 'key = tuple(args)', 'key = hash(tuple(args))')], ['C02']),
 ('a-setkey', [('cached.py', 'key = tuple(args)', 'key = frozenset(args)')], ['C02']),
 ('a-sumkey', [('partitions.py', 'key = (n, max_part, max_row, strict, even_parts)', 'key = (n, max_part, max_row, strict or even_parts)')], ['C02']),
 ('a-fpfkey', [('permutations.py', '        if oneline not in FPF_INVOLUTION_WORDS:', '        oneline = oneline[:4]\n        if oneline not in FPF_INVOLUTION_WORDS:')], ['C02']),
 ('a-mono-inplace', [('symmetric.py', '            for mu, coeff in SymmetricMonomial._multiply(a, b).items():\n                yield', '            products = SymmetricMonomial._multiply(a, b)\n            products.pop((), None)\n            for mu, coeff in products.items():\n                yield')], ['C03']),
 ('a-level-clear', [('permutations.py', '            levels = list(SYMPLECTIC_HECKE_CACHE[key])\n', '            levels = list(SYMPLECTIC_HECKE_CACHE[key])\n            if levels:\n                SYMPLECTIC_HECKE_CACHE[key].pop()\n')], ['C03']),
 ('a-beta-mut', [('polynomials.py', '                    new_ind = ind.copy()\n', '                    new_ind = ind\n')], ['C01']),
 ('a-default-mut', [('partitions.py', '        ans = []\n        for (i, j) in sh:', '        ans = _ROWS\n        for (i, j) in sh:'), ('partitions.py', 'class Partition:\n', '_ROWS = []\n\n\nclass Partition:\n')], ['C03']),
 ('a-rref-noncopy', [('vectors.py', '        matrix = [[e for e in row] for row in matrix]\n', '        matrix = [row for row in matrix]\n')], ['C01']),
 ('a-mul-inplace', [('polynomials.py', 'k = HashableDict({t: k[t] for t in k if k[t] != 0})', 'k = HashableDict(k)\n                i.pop(0, None)')], ['C01']),
 ('a-tab-remove', [('tableaux.py', '        mapping = self.boxes.copy()\n        if (i, j) not in self:\n', '        mapping = self.boxes\n        if (i, j) not in self:\n')], ['C01']),
 ('a-mono-hash', [('symmetric.py', 'return hash((self.n, self.mu))', 'return hash((self.n, self.mu, id(type(self)), len(repr(self)), id(self)))')], ['C04']),
 ('a-poly-hash', [('polynomials.py', '        return hash(str(self))', '        return hash(tuple(self.coeffs.items()))')], ['C04']),
 ('a-tab-eq', [('tableaux.py', 'hash(tuple(sorted(self.boxes.items())))', 'hash((tuple(self.boxes), tuple(sorted(self.boxes.items()))))')], ['C04']),
 ('a-repr-set', [('symmetric.py', '        sorted_items = sorted(\n            [(key, value) for key, value in self.items()],\n            key=lambda m: (sum(m[0].mu), m[0].mu)\n        )\n', '        sorted_items = sorted(self.items(), key=lambda m: m[0].degree())\n')], ['C05']),
 ('a-repr-len', [('symmetric.py', 'key=lambda m: (sum(m[0].mu), m[0].mu)', 'key=lambda m: (sum(m[0].mu), len(m[0].mu))')], ['C05']),
 ('a-maxrow', [('partitions.py', 'cls.generate(n - i, i, max_row - 1, strict=strict, even_parts=even_parts)', 'cls.generate(n - i, i, max_row - 1, strict=strict)')], ['C06']),
 ('a-all-drop', [('partitions.py', 'cls.generate(i, max_part=max_part, max_row=max_row, strict=strict, even_parts=even_parts)', 'cls.generate(i, max_part, max_row, even_parts, strict)')], ['C06']),
 ('a-sub-strict', [('partitions.py', 'for nu in _subpartitions(mu, strict, 1):', 'for nu in _subpartitions(mu, False, 1):')], ['C06']),
 ('a-ascent0', [('permutations.py', '                        if ascent_bound is None or Word.ascents(v) < ascent_bound:\n                            next_level.add((sigma, v))', '                        if not (ascent_bound and Word.ascents(v) >= ascent_bound):\n                            next_level.add((sigma, v))')], ['C12']),
 ('a-maxpart-gt', [('partitions.py', 'max_part is None or max_part > n', 'max_part in (None, 0) or max_part > n')], ['C12']),
 ('a-bool', [('symmetric.py', 'if degree_bound is not None:', 'if bool(degree_bound):')], ['C12']),
 ('a-cmp0', [('symmetric.py', 'if degree_bound is not None:', 'if degree_bound is not None and degree_bound != 0:')], ['C12']),
 ('a-filter', [('tableaux.py', 'return max([0] + [i for i, j in self.boxes if (col is None or j == col)])', 'return max([0] + [i for i, j in self.boxes if (j == col if col else True)])')], ['C12']),
 ('a-warn', [('symmetric.py', '            assert c % d == 0\n', "            import warnings; warnings.warn('x')\n            assert c % d == 0\n")], ['C13']),
 ('a-stderr', [('symmetric.py', '            assert c % d == 0\n', "            import sys; sys.stderr.write('x')\n            assert c % d == 0\n")], ['C13']),
 ('a-logging', [('partitions.py', '    def decrement_one(cls, nu):\n        i = 0\n', "    def decrement_one(cls, nu):\n        i = 0\n        import logging; logging.warning('x')\n")], ['C13']),
 ('a-name', [('partitions.py', '        nu = Partition.trim(mu[1:])\n        for kappa', '        nu = Partition.trimmed(mu[1:])\n        for kappa')], ['C14']),
 ('a-arity', [('permutations.py', 'return Permutation(*[n + 1 - i for i in reversed(self.oneline)])', 'return Permutation(*[n + 1 - i for i in self.oneline.reverse()])')], ['C14']),
 ('a-tuplelist', [('partitions.py', 'return cls.trim(nu[:i] + (nu[i] - 1,) + nu[i + 1:])', 'return cls.trim(nu[:i] + [nu[i] - 1] + nu[i + 1:])')], ['C14']),
 ('a-sqrt', [('partitions.py', '        i = 0\n        while i + 1 < len(nu) and nu[i] - 1 <= nu[i + 1]:', '        i = 0 * int(len(nu) ** 0.5)\n        while i + 1 < len(nu) and nu[i] - 1 <= nu[i + 1]:')], ['C29']),
 ('a-div', [('vectors.py', 'scale(matrix, j, a // d)', 'scale(matrix, j, int(a / d))')], ['C29']),
 ('a-sumdiv', [('symmetric.py', '            c = c // d * BETA**cdeg', '            c = int(c / d) * BETA**cdeg')], ['C29']),
 ('a-negpow', [('polynomials.py', 'self.coeffs[ind] ** abs(i)', 'self.coeffs[ind] ** i')], ['C29']),
 ('a-round', [('polynomials.py', 'return Polynomial({k: v // o for k, v in self.coeffs.items()})', 'return Polynomial({k: round(v / o) for k, v in self.coeffs.items()})')], ['C29']),
 ('a-setpop', [('tableaux.py', '        i, j = list(boxes)[0]', '        i, j = set(map(str, boxes)).pop()')], ['C30']),
 ('a-time', [('partitions.py', '        i = 0\n        while i + 1 < len(nu)', '        import time\n        i = 0 if time.time() else 1\n        while i + 1 < len(nu)')], ['C30']),
 ('a-environ', [('partitions.py', '        i = 0\n        while i + 1 < len(nu)', "        import os\n        i = int(os.environ.get('I', 0))\n        while i + 1 < len(nu)")], ['C30']),
 ('a-strhash', [('partitions.py', '        i = 0\n        while i + 1 < len(nu)', "        i = hash('a') % 1\n        while i + 1 < len(nu)")], ['C30']),
 ('a-vec-capture', [('symmetric.py', 'self.dictionary = {key: value for key, value in dictionary.items() if value}', 'self.dictionary = dictionary')], ['C32']),
 ('a-mono-share', [('symmetric.py', '    def index(self):\n        return self.mu', '    def index(self):\n        return self.mu\n\n    def products(self, other):\n        return SymmetricMonomial._multiply(self, other)')], ['C32']),
 ('b-levels-live', [('permutations.py', '            levels = list(HECKE_CACHE[key])\n', '            levels = HECKE_CACHE[key]\n')], ['C07']),
 ('b-levels-cached', [('permutations.py', '            if i >= len(HECKE_CACHE[key]):\n                HECKE_CACHE[key].append(level)\n            yield set(level)\n', '            seen = len(HECKE_CACHE[key])\n            yield set(level)\n            if i >= seen:\n                HECKE_CACHE[key].append(level)\n')], ['C07']),
 ('b-levels-uncond', [('permutations.py', '            levels = list(HECKE_CACHE[key])\n            for level in levels[:-1]:\n                yield level\n', '            known = len(HECKE_CACHE[key])\n            for i in range(known - 1):\n                yield HECKE_CACHE[key][i]\n            levels = HECKE_CACHE[key]\n')], ['C07']),
 ('b-part-early', [('partitions.py', '                ans = []\n                if max_row > 0:', '                ans = PARTITIONS[key] = []\n                if max_row > 0:'), ('partitions.py', '                PARTITIONS[key] = ans\n', '')], ['C07', 'C03']),
 ('b-part-tuple', [('partitions.py', '                                ans.append(nu)\n                                yield nu\n                PARTITIONS[key] = ans\n', '                                ans.append(nu)\n                                yield nu\n                        PARTITIONS[key] = tuple(ans)\n')], ['C07']),
 ('b-part-finally', [('partitions.py', '                        for mu in cls.generate(n - i, i, max_row - 1, strict=strict, even_parts=even_parts):\n                            nu = (i,) + mu\n                            if not strict or Partition.is_strict_partition(nu):\n                                ans.append(nu)\n                                yield nu\n                PARTITIONS[key] = ans\n', '                        try:\n                            for mu in cls.generate(n - i, i, max_row - 1, strict=strict, even_parts=even_parts):\n                                nu = (i,) + mu\n                                if not strict or Partition.is_strict_partition(nu):\n                                    ans.append(nu)\n                                    yield nu\n                        finally:\n                            PARTITIONS[key] = list(ans)\n')], ['C07']),
 ('b-part-early2', [('partitions.py', '                ans = []\n                if max_row > 0:', '                PARTITIONS[key] = []\n                ans = PARTITIONS[key]\n                if max_row > 0:'), ('partitions.py', '                PARTITIONS[key] = ans\n', '')], ['C07', 'C03']),
 ('b-map-twice', [('tableaux.py', '        i, j = list(boxes)[0]', '        boxes = iter(boxes) if 0 else (b for b in boxes)\n        i, j = list(boxes)[0]\n        assert len(list(boxes)) >= 0')], ['C08']),
 ('b-subatoms', [('vectors.py', '        matrix = [[e for e in row] for row in matrix]\n', '        matrix = ([e for e in row] for row in matrix)\n        m = len(list(matrix))\n        matrix = [list(r) for r in matrix]\n')], ['C08']),
 ('b-kept', [('vectors.py', '        self.dictionary = {key: value for key, value in dictionary.items() if value}', '        self.dictionary = {key: value for key, value in dictionary.items() if value}\n        self.terms = ((k, v) for k, v in self.dictionary.items())')], ['C08']),
 ('b-empty', [('partitions.py', '    def decrement_one(cls, nu):\n        i = 0\n', '    def decrement_one(cls, nu):\n        rows = (a for a in nu if a)\n        if not rows:\n            return nu\n        i = 0\n')], ['C08']),
 ('b-nested', [('partitions.py', '    def decrement_one(cls, nu):\n        i = 0\n', '    def decrement_one(cls, nu):\n        rows = (a for a in nu if a)\n        assert all(b in rows for b in nu)\n        i = 0\n')], ['C08']),
 ('b-poly-del', [('polynomials.py', '        newcoeffs = self.coeffs.copy()\n        for i in other.coeffs:\n            newcoeffs[i] = self[i] + other[i]\n            if newcoeffs[i] == 0:\n                del newcoeffs[i]\n', '        newcoeffs = self.coeffs.copy()\n        for i in other.coeffs:\n            newcoeffs[i] = self[i] + other[i]\n        for i in newcoeffs:\n            if newcoeffs[i] == 0:\n                del newcoeffs[i]\n')], ['C09']),
 ('k-used-map', [('operators.py', 'def operator_AL(n, var=yvar):  # noqa\n', 'def operator_AL(n, var=yvar):  # noqa\n    steps = map(operator_shifted_add, range(n + 1))\n\n'), ('operators.py', '        for i in range(n + 1):\n            ans += var * operator_shifted_add(i)(ans)\n', '        for step in steps:\n            ans += var * step(ans)\n')], ['C10']),
 ('k-used-rev', [('operators.py', 'def operator_AL(n, var=yvar):  # noqa\n', 'def operator_AL(n, var=yvar):  # noqa\n    order = reversed(range(n, -1, -1))\n\n'), ('operators.py', '        for i in range(n + 1):\n            ans += var * operator_shifted_add(i)(ans)\n', '        for i in order:\n            ans += var * operator_shifted_add(i)(ans)\n')], ['C10']),
 ('k-used-gen', [('operators.py', 'def operator_AL(n, var=yvar):  # noqa\n', 'def operator_AL(n, var=yvar):  # noqa\n    steps = (operator_shifted_add(i) for i in range(n + 1))\n\n'), ('operators.py', '        for i in range(n + 1):\n            ans += var * operator_shifted_add(i)(ans)\n', '        for step in steps:\n            ans += var * step(ans)\n')], ['C10']),
 ('k-late', [('operators.py', 'def operator_AL(n, var=yvar):  # noqa\n', 'def operator_AL(n, var=yvar):  # noqa\n    steps = []\n    for i in range(n + 1):\n        steps.append(lambda v: var * operator_shifted_add(i)(v))\n\n'), ('operators.py', '        for i in range(n + 1):\n            ans += var * operator_shifted_add(i)(ans)\n', '        for step in steps:\n            ans += step(ans)\n')], ['C10']),
 ('k-late-comp', [('operators.py', 'def operator_AL(n, var=yvar):  # noqa\n', 'def operator_AL(n, var=yvar):  # noqa\n    steps = [lambda v: var * operator_shifted_add(i)(v) for i in range(n + 1)]\n\n'), ('operators.py', '        for i in range(n + 1):\n            ans += var * operator_shifted_add(i)(ans)\n', '        for step in steps:\n            ans += step(ans)\n')], ['C10']),
 ('k-nonlocal', [('operators.py', '            e = 0\n            i = abs(index)\n            row = Partition.find_shifted_inner_corner(mu, i)\n            while i >= 0', '            nonlocal index\n            index = abs(index) - 0\n            e = 0\n            i = index\n            row = Partition.find_shifted_inner_corner(mu, i)\n            while i >= 0')], ['C10']),
 ('k-pop', [('operators.py', 'def operator_AL(n, var=yvar):  # noqa\n', 'def operator_AL(n, var=yvar):  # noqa\n    left = list(range(n, -1, -1))\n\n'), ('operators.py', '        for i in range(n + 1):\n            ans += var * operator_shifted_add(i)(ans)\n', '        while left:\n            ans += var * operator_shifted_add(left.pop())(ans)\n')], ['C10']),
 ('k-state', [('operators.py', 'def operator_shifted_row_remove(index):\n', 'def operator_shifted_row_remove(index):\n    signs = [1]\n\n'), ('operators.py', '                ans += Vector({mu: coefficient * (-beta) ** e})\n                e += 1\n        return ans\n    return op\n\n\ndef operator_shifted_column', '                ans += Vector({mu: coefficient * (-beta) ** e})\n                signs.append(-signs[-1])\n                e += 1\n        return ans\n    return op\n\n\ndef operator_shifted_column')], ['C10']),
 ('k-default', [('partitions.py', '    def skew(cls, mu, nu, shifted=False):\n', '    def skew(cls, mu, nu, shifted=False, seen=[]):\n        seen.append(nu)\n')], ['C10']),
 ('k-gen-late', [('operators.py', 'def operator_AL(n, var=yvar):  # noqa\n', 'def operator_AL(n, var=yvar):  # noqa\n    steps = []\n    for i in range(n + 1):\n        steps.append(operator_shifted_add(j) for j in [i, i] if j == i)\n\n')], ['C10']),
 ('m-pop', [('permutations.py', '    def __init__(self, *oneline):\n', '    def __init__(self, *oneline):\n        oneline = list(oneline)\n        assert not oneline or oneline.pop() is not None\n')], ['C11']),
 ('m-walrus', [('partitions.py', '    def trim(cls, mu):\n', '    def trim(cls, mu):\n        assert (size := len(mu)) >= 0\n        mu = mu[:size]\n')], ['C11']),
 ('m-next', [('tableaux.py', '    def apply(self, function):\n', '    def apply(self, function):\n        cells = iter(self)\n        assert next(cells, None) is not None or not self.boxes\n        list(cells)\n')], ['C11']),
 ('m-caught', [('crystals.py', '        self.mu = mu\n        self.max_entry = max_entry\n', '        self.mu = mu\n        try:\n            assert type(max_entry) is int\n        except AssertionError:\n            max_entry = int(max_entry)\n        self.max_entry = max_entry\n')], ['C11']),
 ('m-helper', [('tableaux.py', '    def halve(self):\n        assert all', '    def settle(self):\n        self.boxes.clear()\n        return True\n\n    def halve(self):\n        assert self.settle()\n        assert all')], ['C11']),
 ('m-debug', [('tableaux.py', '    def halve(self):\n        assert all', '    def halve(self):\n        if __debug__:\n            return self\n        assert all')], ['C11']),
]

QUIET += [
 ('b-q-poly-del', [('polynomials.py', '            if newcoeffs[i] == 0:\n                del newcoeffs[i]\n', '        for i in list(newcoeffs):\n            if newcoeffs[i] == 0:\n                del newcoeffs[i]\n')]),
 ('k-q-lists', [('operators.py', 'def operator_AL(n, var=yvar):  # noqa\n', 'def operator_AL(n, var=yvar):  # noqa\n    steps = [operator_shifted_add(i) for i in range(n + 1)]\n\n'), ('operators.py', '        for i in range(n + 1):\n            ans += var * operator_shifted_add(i)(ans)\n', '        for step in steps:\n            ans += var * step(ans)\n')]),
 ('k-q-late-def', [('operators.py', 'def operator_AL(n, var=yvar):  # noqa\n', 'def operator_AL(n, var=yvar):  # noqa\n    steps = []\n    for i in range(n + 1):\n        steps.append(lambda v, i=i: var * operator_shifted_add(i)(v))\n\n'), ('operators.py', '        for i in range(n + 1):\n            ans += var * operator_shifted_add(i)(ans)\n', '        for step in steps:\n            ans += step(ans)\n')]),
 ('k-q-factory', [('operators.py', 'def operator_AL(n, var=yvar):  # noqa\n', 'def operator_AL(n, var=yvar):  # noqa\n    def one(i):\n        return lambda v: var * operator_shifted_add(i)(v)\n\n    steps = []\n    for i in range(n + 1):\n        steps.append(one(i))\n\n'), ('operators.py', '        for i in range(n + 1):\n            ans += var * operator_shifted_add(i)(ans)\n', '        for step in steps:\n            ans += step(ans)\n')]),
 ('k-q-apply', [('tableaux.py', '    def double(self):\n        return self.apply(lambda x: 2 * x)\n', '    def double(self):\n        ans = []\n        for k in (1, 2):\n            ans.append(self.apply(lambda x: k * x))\n        return [self.apply(lambda x: k * x) for k in (1, 2)][-1]\n')]),
 ('k-q-sort', [('tableaux.py', '    def double(self):\n', '    def double(self):\n        for k in (1, 2):\n            v = [sorted(self.boxes, key=lambda b: (b[0] * k, b)) for _ in range(2)]\n            w = max(v, key=lambda b: len(b) * k)\n')]),
 ('k-q-inner', [('operators.py', '        for i in range(n + 1):\n            ans += var * operator_shifted_add(i)(ans)\n', '        def step(i):\n            nonlocal ans\n            ans += var * operator_shifted_add(i)(ans)\n\n        for i in range(n + 1):\n            step(i)\n')]),
 ('k-q-inner2', [('operators.py', '        for i in range(n + 1):\n            ans += var * operator_shifted_add(i)(ans)\n', '        seen = []\n\n        def step(i):\n            seen.append(i)\n            return var * operator_shifted_add(i)(ans)\n\n        for i in range(n + 1):\n            ans += step(i)\n')]),
 ('k-q-memo', [('operators.py', 'def operator_AL(n, var=yvar):  # noqa\n', 'def operator_AL(n, var=yvar):  # noqa\n    steps = {}\n\n'), ('operators.py', '        for i in range(n + 1):\n            ans += var * operator_shifted_add(i)(ans)\n', '        for i in range(n + 1):\n            if i not in steps:\n                steps[i] = operator_shifted_add(i)\n            ans += var * steps[i](ans)\n')]),
 ('m-q-helper', [('tableaux.py', '    def halve(self):\n        assert all(', '    def even(self):\n        odd = []\n        for _, _, value in self:\n            for v in value:\n                if v % 2:\n                    odd.append(v)\n        return not odd\n\n    def halve(self):\n        assert self.even()\n        assert all(')]),
 ('m-q-raise', [('tableaux.py', '    def halve(self):\n        assert all(v % 2 == 0 for _, _, value in self for v in value)\n', '    def halve(self):\n        if not all(v % 2 == 0 for _, _, value in self for v in value):\n            raise AssertionError\n')]),
 ('m-q-next', [('tableaux.py', '    def halve(self):\n', '    def halve(self):\n        assert next(iter(self.boxes), None) is None or True\n        assert len({x for x in self.boxes}) == len(sorted(self.boxes))\n')]),
]

# C17: rounds that change nothing
BROKEN += [
    ('n-vstrip', [('dualops.py', '        while Partition.isin_shifted(mu, i, j):\n            i += 1\n            j += 1\n        if (i == j', '        while Partition.isin_shifted(mu, i, j):\n            if i < j:\n                i += 1\n                j += 1\n        if (i == j')], ['C17']),
    ('n-chain', [('crystals.py', '                ans[j].append(x)\n', '                if x not in ans[j]:\n                    ans[j].append(x)\n')], ['C17']),
    ('n-queue', [('tableaux.py', '        queue = [(mu, len(mu) - 1)]\n        while queue:\n            nu, i = queue[0]\n            queue = queue[1:]\n            if i >= 0:\n', '        queue = [(mu, len(mu) - 1)]\n        while queue:\n            nu, i = queue[0]\n            if i < 0 and nu:\n                continue\n            queue = queue[1:]\n            if i >= 0:\n')], ['C17']),
    ('n-decrement2', [('partitions.py', '            i += 1\n            mu[i] -= 1\n        return cls.trim(mu)', '            if mu[i + 1] > 1:\n                i += 1\n                mu[i] -= 1\n        return cls.trim(mu)')], ['C17']),
    ('n-skew', [('partitions.py', '            if all(i > 1 and j > 1 for (i, j) in skew):\n                skew = {(i - 1, j - 1) for (i, j) in skew}\n                continue\n', '            if all(i > 1 and j > 1 for (i, j) in skew):\n                moved = {(i - 1, j - 1) for (i, j) in skew}\n                if not shifted:\n                    skew = moved\n                continue\n')], ['C17']),
    ('n-rec', [('polynomials.py', '        return self * (self**(i - 1))\n', '        return self * self.__pow__(i)\n')], ['C17']),
    ('n-rec2', [('partitions.py', '            for e in cls.compositions(n - i):\n', '            for e in cls.compositions(n):\n')], ['C17']),
    ('n-pad', [('tableaux.py', '                    while abs(x) > len(ans):\n                        ans.append(0)\n', '                    while abs(x) > len(ans):\n                        if x > 0:\n                            ans.append(0)\n')], ['C17']),
]
QUIET += [
    ('n-decrement', [('partitions.py', '            i += 1\n            mu[i] -= 1\n        return cls.trim(mu)', '            if mu[i + 1] > 0:\n                i += 1\n                mu[i] -= 1\n        return cls.trim(mu)')]),
    ('n-q-while-true', [('dualops.py', '        while Partition.isin_shifted(mu, i, j):\n            i += 1\n            j += 1\n        if (i == j', '        while True:\n            if not Partition.isin_shifted(mu, i, j):\n                break\n            i, j = i + 1, j + 1\n        if (i == j')]),
    ('n-q-flag', [('dualops.py', '        while Partition.isin_shifted(mu, i, j):\n            i += 1\n            j += 1\n        if (i == j', '        going = True\n        while going:\n            if Partition.isin_shifted(mu, i, j):\n                i += 1\n                j += 1\n            else:\n                going = False\n        if (i == j')]),
    ('n-q-helper', [('partitions.py', '        while i + 1 < len(mu) and 0 < mu[i] == mu[i + 1]:\n            i += 1\n            mu[i] -= 1\n', '        def lower():\n            nonlocal i\n            i += 1\n            mu[i] -= 1\n\n        while i + 1 < len(mu) and 0 < mu[i] == mu[i + 1]:\n            lower()\n')]),
    ('n-q-helper2', [('permutations.py', '            numbers.remove(numbers[0])\n            while nxt != cycle[0]:\n                cycle.append(nxt)\n                numbers.remove(nxt)\n                nxt = oneline[cycle[len(cycle) - 1] - 1]\n', '            numbers.remove(numbers[0])\n\n            def follow(c, rest):\n                c.append(nxt)\n                rest.remove(nxt)\n                return oneline[c[-1] - 1]\n            while nxt != cycle[0]:\n                nxt = follow(cycle, numbers)\n')]),
    ('n-q-tri', [('vectors.py', '            while b != 0:\n', '            while b != 0:\n                if a < b:\n                    a, b = b, a\n                elif a == b:\n                    return abs(a)\n                elif a > b:\n                    a = a + 0\n')]),
    ('n-q-trim', [('partitions.py', '        while mu and mu[-1] == 0:\n            mu = mu[:-1]\n        return tuple(mu)', '        while True:\n            if not mu:\n                return ()\n            last = mu[-1]\n            if last:\n                return tuple(mu)\n            mu = mu[:-1]')]),
    ('n-q-first', [('partitions.py', '        while i + 1 < len(nu) and nu[i] - 1 <= nu[i + 1]:\n            i += 1\n', '        first = True\n        while i + 1 < len(nu) and nu[i] - 1 <= nu[i + 1]:\n            if first:\n                first = False\n                i = 1\n            else:\n                i += 1\n')]),
    ('n-q-iter', [('tableaux.py', '                    while abs(x) > len(ans):\n                        ans.append(0)\n', '                    short = abs(x) - len(ans)\n                    while short > 0:\n                        ans.append(0)\n                        short = abs(x) - len(ans)\n')]),
    ('n-q-next', [('crystals.py', '            while True:\n                x = self.f_crystal_operator(ans[j][-1], i)\n                if x is None:\n                    break\n                ans[j].append(x)\n', '            x = self.f_crystal_operator(ans[j][-1], i)\n            while x is not None:\n                ans[j] += [x]\n                x = self.f_crystal_operator(ans[j][-1], i)\n')]),
    ('n-q-chain', [('crystals.py', '            while True:\n                x = self.f_crystal_operator(ans[j][-1], i)\n                if x is None:\n                    break\n                ans[j].append(x)\n', '            chain = ans[j]\n            while True:\n                x = self.f_crystal_operator(chain[-1], i)\n                if x is not None:\n                    chain.append(x)\n                else:\n                    break\n')]),
]

# C16, C18, C19: kinds of answers, answers on every path, values on every path
BROKEN += [
    ('e-get', [('polynomials.py', '            return self.coeffs[i]\n        return 0\n', '            return self.coeffs[i]\n')], ['C18']),
    ('e-elif', [('words.py', '        return 1 if all(word[i] < word[i + 1] for i in range(len(word) - 1)) else 0', '        if all(word[i] < word[i + 1] for i in range(len(word) - 1)):\n            return 1\n        elif any(word[i] > word[i + 1] for i in range(len(word) - 1)):\n            return 0')], ['C18']),
    ('e-bare', [('insertion.py', '        return HSTATE_CACHE[(p, q, arg)]\n', '        if len(p) > 40:\n            return\n        return HSTATE_CACHE[(p, q, arg)]\n')], ['C18']),
    ('e-for', [('vectors.py', '        return n - 1 not in pivots', '        for j in pivots:\n            return n - 1 not in pivots')], ['C18']),
    ('e-handon', [('tableaux.py', '    def shape(self):\n        ans = []\n', '    def shape(self):\n        if self.max_row() == 0:\n            return self.last_box_in_row(1)\n        ans = []\n')], ['C18']),
    ('e-cond', [('partitions.py', '            t = t[-1:]\n', '            t = t[-1:]\n            if len(t) < 1:\n                return None\n')], ['C18']),
    ('u-degree', [('symmetric.py', '        m = min(degrees) if degrees else 0\n', '        if degrees:\n            m = min(degrees)\n')], ['C19']),
    ('u-row', [('partitions.py', '        row = max(a) + 1 if a else 1\n', '        for i in a:\n            row = i + 1\n')], ['C19']),
    ('u-init', [('words.py', '        ans = ()\n        for a in args:\n            ans += (w[:len(a)],)\n            w = w[len(a):]\n        return ans\n', '        for k, a in enumerate(args):\n            ans = (w[:len(a)],) if k == 0 else ans + (w[:len(a)],)\n            w = w[len(a):]\n        return ans\n')], ['C19']),
    ('u-branch', [('words.py', '        n = max(filtered) + 1 if filtered else 1\n', '        if len(filtered) > 1:\n            n = max(filtered) + 1\n        elif filtered:\n            n = filtered[0] + 1\n')], ['C19']),
    ('u-try', [('vectors.py', '        printer = self.printer or repr\n', '        try:\n            printer = self.printer or repr\n        except ValueError:\n            pass\n')], ['C19']),
    ('u-aug', [('tableaux.py', '    def shape(self):\n        ans = []\n', '    def shape(self):\n        if self.boxes:\n            ans = []\n')], ['C19']),
    ('k-sort', [('partitions.py', '        ans = tuple(reversed(sorted(mu)))\n        if trim:\n            ans = cls.trim(ans)\n        return ans\n', '        ans = sorted(mu, reverse=True)\n        if trim:\n            ans = cls.trim(ans)\n        return ans\n')], ['C16']),
    ('k-corner', [('partitions.py', '            ans = list(mu)\n            ans[row - 1] -= 1\n            return tuple(ans)\n', '            ans = list(mu)\n            ans[row - 1] -= 1\n            return ans\n')], ['C16']),
    ('k-skew', [('partitions.py', '        """Assumes nu is contained in mu."""\n        ans = set()\n', '        """Assumes nu is contained in mu."""\n        if mu == nu:\n            return ()\n        ans = set()\n')], ['C16']),
    ('k-rims', [('partitions.py', '            else:\n                yield tuple(sorted(r))\n', '            else:\n                yield sorted(r)\n')], ['C16']),
    ('k-succ', [('partitions.py', '                    yield Partition.trim(mu[:i] + (mu[i] + 1,) + nu)\n', '                    yield [*mu[:i], mu[i] + 1, *nu]\n')], ['C16']),
    ('k-lazy', [('tableaux.py', '    def last_box_in_row(self, row):\n', '    def entries(self):\n        return self.boxes.values() if len(self) else []\n\n    def last_box_in_row(self, row):\n'), ('tableaux.py', '    def shape(self):\n        ans = []\n', '    def shape(self):\n        if not self.boxes:\n            return self.entries()\n        ans = []\n')], ['C16']),
    ('k-false', [('partitions.py', '        if (i == 1 or (i - 1, j) in shape) and (i == j or (i, j - 1) in shape):\n            return i\n        return None\n', "        if (i == 1 or (i - 1, j) in shape) and (i == j or (i, j - 1) in shape):\n            return i\n        return ''\n")], ['C16']),
    ('k-map', [('partitions.py', '        else:\n            return mu\n\n    @classmethod\n    def from_skew(', '        else:\n            return map(int, mu)\n\n    @classmethod\n    def from_skew(')], ['C16']),
]
QUIET += [
    ('e-q-else', [('words.py', '        return 1 if all(word[i] < word[i + 1] for i in range(len(word) - 1)) else 0', '        good = all(word[i] < word[i + 1] for i in range(len(word) - 1))\n        if good:\n            return 1\n        if not good:\n            return 0')]),
    ('e-q-sign', [('words.py', '        return 1 if all(word[i] < word[i + 1] for i in range(len(word) - 1)) else 0', '        n = len(word)\n        for i in range(n - 1):\n            if word[i] < word[i + 1]:\n                continue\n            elif word[i] == word[i + 1]:\n                return 0\n            elif word[i] > word[i + 1]:\n                return 0\n        if n > 0:\n            return 1\n        elif n == 0:\n            return 1\n        raise ValueError')]),
    ('e-q-parity', [('vectors.py', '        if other % 2 == 0:\n            return x * x\n        else:\n            return x * x * self\n', '        if other % 2 == 1:\n            return x * x * self\n        elif other % 2 == 0:\n            return x * x\n')]),
    ('e-q-get', [('tableaux.py', '    def shape(self):\n', '    def _none_or(self, box):\n        if box in self.boxes:\n            return self.boxes[box]\n\n    def shape(self):\n')]),
    ('e-q-helper', [('words.py', '        return 1 if all(word[i] < word[i + 1] for i in range(len(word) - 1)) else 0', '        bad = cls._first_bad(word)\n        return 1 if bad is None else 0\n\n    @classmethod\n    def _first_bad(cls, word):\n        for i in range(len(word) - 1):\n            if word[i] >= word[i + 1]:\n                return i\n        return None')]),
    ('e-q-while', [('partitions.py', '        while (i, j) in shape:\n            i, j = i + 1, j + 1\n        if (i == 1 or (i - 1, j) in shape) and (i == j or (i, j - 1) in shape):\n            return i\n        return None\n', '        while True:\n            if (i, j) not in shape:\n                if (i == 1 or (i - 1, j) in shape) and (i == j or (i, j - 1) in shape):\n                    return i\n                return None\n            i, j = i + 1, j + 1\n')]),
    ('e-q-printable', [('partitions.py', '        if nu is None:\n            return\n        s = []\n', '        if nu is None:\n            return None\n        s = []\n')]),
    ('e-q-demorgan', [('words.py', '        return 1 if all(word[i] > word[i + 1] for i in range(len(word) - 1)) else 0', '        n, down = len(word), all(word[i] > word[i + 1] for i in range(len(word) - 1))\n        if n > 1 and down:\n            return 1\n        elif n <= 1 or not down:\n            return 1 if down else 0')]),
    ('u-q-flag', [('symmetric.py', '        m = min(degrees) if degrees else 0\n', '        any_degree = False\n        if degrees:\n            m = min(degrees)\n            any_degree = True\n        if not any_degree:\n            m = 0\n')]),
    ('u-q-loop', [('symmetric.py', '        m = min(degrees) if degrees else 0\n', '        if degrees:\n            for k, d in enumerate(sorted(degrees)):\n                if k == 0:\n                    m = d\n        else:\n            m = 0\n')]),
    ('u-q-forelse', [('partitions.py', '        row = max(a) + 1 if a else 1\n', '        for i in sorted(a, reverse=True):\n            row = i + 1\n            break\n        else:\n            row = 1\n')]),
    ('u-q-range', [('words.py', '        n = max(filtered) + 1 if filtered else 1\n', '        for _ in range(2):\n            n = max(filtered) + 1 if filtered else 1\n')]),
    ('u-q-try', [('words.py', '        n = max(filtered) + 1 if filtered else 1\n', '        try:\n            n = max(filtered) + 1\n        except ValueError:\n            n = 1\n')]),
    ('u-q-while', [('partitions.py', '        row = max(a) + 1 if a else 1\n', '        i = 0\n        while i <= len(a):\n            row = 1 if i == 0 else max(a) + 1\n            i += 1\n')]),
    ('u-q-nested', [('insertion.py', '        if len(values) == 1:\n            a, b = i, j\n            c = self.get(i, j)\n            t = self.tableau.remove(i, j)\n            j = t.max_column() + 2\n\n        elif len(values) > 1:\n', '        single = len(values) == 1\n        if single:\n            a, b = i, j\n            c = self.get(i, j)\n            t = self.tableau.remove(i, j)\n            j = t.max_column() + 2\n\n        if not single:\n')]),
    ('u-q-none', [('symmetric.py', '        m = min(degrees) if degrees else 0\n', '        found = None\n        for d in degrees:\n            if found is None or d < found:\n                found = d\n                m = d\n        if found is None:\n            m = 0\n')]),
    ('k-q-list', [('partitions.py', '            ans = list(mu)\n            ans[row - 1] -= 1\n            return tuple(ans)\n', '            ans = mu[:row - 1]\n            ans += (mu[row - 1] - 1,)\n            return (*ans, *mu[row:])\n')]),
    ('k-q-set', [('partitions.py', '        """Assumes nu is contained in mu."""\n        ans = set()\n', '        """Assumes nu is contained in mu."""\n        ans = set([])\n        if mu == nu:\n            return {c for c in ans}\n')]),
    ('k-q-sort', [('partitions.py', '        ans = tuple(reversed(sorted(mu)))\n        if trim:\n            ans = cls.trim(ans)\n        return ans\n', '        ans = sorted(mu, reverse=True)\n        while trim and ans and ans[-1] == 0:\n            ans.pop()\n        return tuple(ans)\n')]),
    ('k-q-helper', [('partitions.py', '        while mu and mu[-1] == 0:\n            mu = mu[:-1]\n        return tuple(mu)', '        mu = list(mu)\n        for i in reversed(range(len(mu))):\n            if mu[i] == 0:\n                del mu[i]\n            else:\n                break\n        return tuple(mu)')]),
    ('k-q-rims', [('partitions.py', '            else:\n                yield tuple(sorted(r))\n', '            else:\n                boxes = list(r)\n                boxes.sort()\n                yield tuple(boxes)\n')]),
]

# C20: wiring of named functions
BROKEN += [
    ('w-js', [('symmetric.py', "return cls._expansion(f, cls.slow_transposed_dual_stable_grothendieck_s, cls._get_term_from_highest_degree)", "return cls._expansion(f, cls.slow_transposed_dual_stable_grothendieck_q, cls._get_term_from_highest_degree)")], ['C20']),
    ('w-end', [('symmetric.py', "return cls._expansion(f, cls.mn_stable_grothendieck_q, cls._get_term_from_lowest_degree)", "return cls._expansion(f, cls.mn_stable_grothendieck_q, cls._get_term_from_highest_degree)")], ['C20']),
    ('w-mn', [('symmetric.py', "return cls._expansion(f, cls.mn_stable_grothendieck_q, cls._get_term_from_lowest_degree)", "return cls._expansion(f, cls.stable_grothendieck_q, cls._get_term_from_lowest_degree)")], ['C20']),
    ('w-P', [('symmetric.py', "return cls._expansion(f, cls.schur_p, cls._get_term_from_lowest_degree)", "return cls._expansion(f, cls.schur_q, cls._get_term_from_lowest_degree)")], ['C20']),
    ('w-corners', [('symmetric.py', "            for x in Partition.remove_inner_corners(nu):\n                ans += BETA**(sum(nu) - sum(x)) * cls._stable_grothendieck_s(", "            for x in Partition.remove_shifted_inner_corners(nu):\n                ans += BETA**(sum(nu) - sum(x)) * cls._stable_grothendieck_s(")], ['C20']),
    ('w-utils', [('utils.py', "mp_gp = SymmetricPolynomial.mp_dual_stable_grothendieck_p", "mp_gp = SymmetricPolynomial.dual_stable_grothendieck_p")], ['C20']),
    ('w-utils2', [('utils.py', "js = SymmetricPolynomial.slow_transposed_dual_stable_grothendieck_s", "js = SymmetricPolynomial.slow_transposed_dual_stable_grothendieck")], ['C20']),
    ('w-utils3', [('utils.py', "    return SymmetricPolynomial.stable_grothendieck_q(num_variables, mu, nu, degree_bound=degree_bound)", "    return SymmetricPolynomial.stable_grothendieck_q(num_variables, nu, mu, degree_bound=degree_bound)")], ['C20']),
    ('w-setvalued', [('tableaux.py', "        return cls.count_semistandard_marked(max_entry, mu, nu, True)", "        return cls.count_semistandard_marked(max_entry, mu, nu)")], ['C20']),
    ('w-shifted-set', [('tableaux.py', "        return cls.semistandard_shifted_marked_setvalued(max_entry, mu, nu, diagonal_primes)", "        return cls.semistandard_shifted_marked(max_entry, mu, nu, diagonal_primes)")], ['C20']),
    ('w-signed', [('permutations.py', "Word.quasisymmetrize(w, Word.unimodal_zeta)", "Word.quasisymmetrize(w, Word.decreasing_zeta)")], ['C20']),
    ('w-strips', [('tableaux.py', "            for nu, diff in cls._rpp_vertical_strips(mu, lam):\n                for tab in", "            for nu, diff in cls._rpp_horizontal_strips(mu, lam):\n                for tab in")], ['C20']),
    ('w-state', [('insertion.py', "        word = FState.inverse_insertion(insertion_tableau, standard_tableau)", "        word = HState.inverse_insertion(insertion_tableau, standard_tableau)")], ['C20']),
    ('w-slow', [('symmetric.py', "            Tableau.semistandard_marked_rpp(num_variables, mu, nu, diagonal_nonprimes=True),\n            -BETA**-1\n", "            Tableau.semistandard_marked_rpp(num_variables, mu, nu, False),\n            -BETA**-1\n")], ['C20']),
]
QUIET += [
    ('w-q-gs', [('symmetric.py', "        return cls._dual_stable_grothendieck_q(num_variables, new_mu, new_nu)", "        return cls._dual_stable_grothendieck_p(num_variables, new_mu, new_nu)")]),
    ('w-q-helper', [('symmetric.py', "        return cls._expansion(f, cls.schur_p, cls._get_term_from_lowest_degree)", "        return cls._low(f, basis=cls.schur_p)"),
                    ('symmetric.py', "    @classmethod\n    def GQ_expansion(cls, f):  # noqa\n        return cls._expansion(f, cls.stable_grothendieck_q, cls._get_term_from_lowest_degree)", "    @classmethod\n    def _low(cls, f, basis):\n        lowest = cls._get_term_from_lowest_degree\n        return cls._expansion(f, basis, get_term=lowest)\n\n    @classmethod\n    def GQ_expansion(cls, f):  # noqa\n        return cls._low(f, lambda n, mu: cls.stable_grothendieck_q(n, mu))")]),
    ('w-q-flag', [('symmetric.py', "        tableaux = Tableau.count_semistandard_shifted_marked_setvalued(num_variables, mu, nu, diagonal_primes=False)\n", "        primes = False\n        count = Tableau.count_semistandard_shifted_marked\n        tableaux = count(num_variables, mu, nu, primes, setvalued=not primes)\n")]),
    ('w-q-private', [('symmetric.py', "        tableaux = Tableau.count_semistandard_shifted_marked(num_variables, mu, nu, diagonal_primes=False)\n", "        tableaux = Tableau._count_semistandard_shifted_marked(num_variables, mu, nu, False, False)\n")]),
    ('w-q-negate', [('symmetric.py', "        return cls.negate_beta(cls.stable_grothendieck_q(num_variables, mu, nu))", "        ans = cls._stable_grothendieck_q(num_variables, mu, nu, None)\n        ans = cls.negate_beta(ans)\n        return ans")]),
    ('w-q-state', [('insertion.py', "        word = FState.inverse_insertion(insertion_tableau, standard_tableau)\n        return word, record", "        invert = FState.inverse_insertion\n        return invert(insertion_tableau, standard_tableau), record")]),
    ('w-q-double', [('symmetric.py', "            for x in Partition.remove_inner_corners(nu):\n                ans += BETA**(sum(nu) - sum(x)) * cls._stable_grothendieck_s(num_variables, mu, x, degree_bound)\n        return ans", "            removals = Partition.remove_inner_corners(nu)\n            for smaller in removals:\n                gap = sum(nu) - sum(smaller)\n                ans += BETA**gap * cls.stable_grothendieck_s(num_variables, mu, smaller, degree_bound=degree_bound)\n        return ans")]),
    ('w-q-words', [('permutations.py', "            ans += BETA**(len(w) - ell) * Word.quasisymmetrize(w, Word.unimodal_zeta)", "            zeta = Word.unimodal_zeta\n            ans += BETA**(len(w) - ell) * Word.quasisymmetrize(w, lambda v: zeta(v))")]),
]
BROKEN += [
    ('l-row', [('operators.py', 'ans += Vector({mu: coefficient * (-beta) ** e})\n                e += 1\n        return ans\n    return op\n\n\ndef operator_shifted_column', 'ans += Vector({mu: (-beta) ** e})\n                e += 1\n        return ans\n    return op\n\n\ndef operator_shifted_column')], ['C15']),
    ('l-add-beta', [('operators.py', 'ans += Vector({mu: beta * coefficient})', 'ans += Vector({mu: beta})')], ['C15']),
    ('l-square', [('operators.py', 'ans += Vector({nu: coefficient})', 'ans += Vector({nu: coefficient * vector[mu]})')], ['C15']),
    ('l-AL', [('operators.py', 'ans = vector\n        for i in range(n + 1):\n            ans += var * operator_shifted_add(i)(ans)', 'ans = vector\n        for i in range(n + 1):\n            for mu in ans:\n                ans += var * operator_shifted_add(i)(mu)')], ['C15']),
    ('l-vecmul', [('vectors.py', 'ans[m] = ans.get(m, 0) + x * y * coeff', 'ans[m] = x * y * coeff')], ['C15']),
    ('l-vecmul2', [('vectors.py', 'ans[m] = ans.get(m, 0) + x * y * coeff', 'ans[m] = ans.get(m, 0) + x * x * coeff')], ['C15']),
    ('l-subst', [('polynomials.py', '            term = self.one() * self.coeffs[ind]\n', '            term = self.one()\n')], ['C15']),
    ('l-subst-zero', [('polynomials.py', '            ans = ans + term\n        return ans\n\n    def divide', '            ans = term\n        return ans\n\n    def divide')], ['C15']),
    ('l-coefficient', [('polynomials.py', 'x = x + Polynomial({new_term: self.coeffs[term]})', 'x = x + Polynomial({new_term: 1})')], ['C15']),
    ('l-count', [('tableaux.py', '                    if not (partition and m > partition[-1]):\n                        ans[partition + (m,)] += count\n        return ans\n\n    @classmethod\n    def count_semistandard_marked_rpp', '                    if not (partition and m > partition[-1]):\n                        ans[partition + (m,)] += 1\n        return ans\n\n    @classmethod\n    def count_semistandard_marked_rpp')], ['C15']),
    ('l-count-set', [('tableaux.py', 'ans[updated_partition] += count * nchoosek(len(corners), i)', 'ans[updated_partition] += (count if i == 0 else 1) * nchoosek(len(corners), i)')], ['C15']),
    ('l-count-over', [('tableaux.py', 'ans[updated_partition] += count * nchoosek(len(corners), i)', 'ans[updated_partition] = count * nchoosek(len(corners), i)')], ['C15']),
    ('l-quasi', [('words.py', 'ans[(i,) + k] += z * v', 'ans[(i,) + k] += z')], ['C15']),
    ('l-quasi2', [('words.py', '                    ans[(i,) + k] += z * v', '                    ans[k] = z * v')], ['C15']),
    ('l-omega', [('symmetric.py', '            Partition.transpose(mu): coeff\n', '            Partition.transpose(mu): 1\n')], ['C15']),
    ('l-omega2', [('symmetric.py', '            for mu, coeff in cls.schur_expansion(f).items()\n        })', '            for mu, coeff in cls.schur_expansion(f).items()\n            if coeff > 0\n        })')], ['C15']),
    ('l-gpfree', [('symmetric.py', 'return ans + Vector({mu: c})\n        else:', 'return ans + Vector({mu: 1})\n        else:')], ['C15']),
    ('l-poly', [('symmetric.py', 'ans += mon.polynomial(variable) * coeff', 'ans += mon.polynomial(variable)')], ['C15']),
    ('l-vectorize', [('symmetric.py', 'dictionary[SymmetricMonomial(n, partition)] += count\n', 'dictionary[SymmetricMonomial(n, partition)] = count * count\n')], ['C15']),
    ('l-box', [('boxes.py', 'ans.vector = self.vector * other\n            return ans', 'ans.vector = self.vector\n            return ans')], ['C15']),
    ('l-negate', [('symmetric.py', 'dictionary = {k: v.substitute(0, -BETA) for (k, v) in ans.dictionary.items()}', 'dictionary = {}\n        for k, v in ans.dictionary.items():\n            if not v.is_integer():\n                dictionary[k] = v.substitute(0, -BETA)\n                break\n            dictionary[k] = v')], ['C15']),
    ('l-perm', [('permutations.py', '            ans += BETA**(len(w) - ell) * Word.quasisymmetrize(w, Word.unimodal_zeta)', '            q = Word.quasisymmetrize(w, Word.unimodal_zeta)\n            ans += BETA**(len(w) - ell) * q * q')], ['C15']),
    ('l-highest', [('symmetric.py', '        m = max(degrees) if degrees else 0\n        return SymmetricPolynomial({\n            mon: val for', '        m = max(degrees) if degrees else 0\n        return SymmetricPolynomial({\n            mon: bool(val) + 0 for')], ['C15']),
    ('l-truncate-sym', [('symmetric.py', '        return SymmetricPolynomial({\n            mon: coeff\n            for mon, coeff in self.items()\n            if mon.degree() <= degree_bound\n        })', '        ans = SymmetricPolynomial()\n        for mon, coeff in self.items():\n            if mon.degree() <= degree_bound:\n                ans += SymmetricPolynomial({mon: 1})\n        return ans')], ['C15']),
]
QUIET += [
    ('l-q-row', [('operators.py', '                ans += Vector({mu: coefficient * (-beta) ** e})\n                e += 1\n        return ans\n    return op\n\n\ndef operator_shifted_column', '                sign = (-beta) ** e\n                weight = sign * coefficient\n                ans = ans + Vector({mu: weight})\n                e += 1\n        return ans\n    return op\n\n\ndef operator_shifted_column')]),
    ('l-q-add-dict', [('operators.py', '        ans = 0\n        for mu, coefficient in vector.items():\n            row = Partition.find_shifted_inner_corner(mu, abs(index))\n            if row is not None:\n                ans += Vector({mu: beta * coefficient})\n                continue\n            row = Partition.find_shifted_outer_corner(mu, abs(index))\n            if row is not None:\n                nu = Partition.add(mu, row)\n                ans += Vector({nu: coefficient})\n        return ans', '        ans = defaultdict(int)\n        for mu in vector:\n            row = Partition.find_shifted_inner_corner(mu, abs(index))\n            if row is not None:\n                ans[mu] += beta * vector[mu]\n                continue\n            row = Partition.find_shifted_outer_corner(mu, abs(index))\n            if row is not None:\n                ans[Partition.add(mu, row)] += vector[mu]\n        return Vector(ans) if ans else 0')]),
    ('l-q-helper', [('operators.py', 'def operator_AL(', 'def _step(vector, var, op):\n    return vector + var * op(vector)\n\n\ndef operator_AL('), ('operators.py', '        for i in range(n + 1):\n            ans += var * operator_shifted_add(i)(ans)', '        for i in range(n + 1):\n            ans = _step(ans, var, operator_shifted_add(i))')]),
    ('l-q-vecmul', [('vectors.py', '                    for m, coeff in self.multiplier(a, b) if self.multiplier else [(a * b, 1)]:\n                        ans[m] = ans.get(m, 0) + x * y * coeff', '                    xy = x * y\n                    terms = self.multiplier(a, b) if self.multiplier else [(a * b, 1)]\n                    for m, coeff in terms:\n                        if m in ans:\n                            ans[m] += xy * coeff\n                        else:\n                            ans[m] = xy * coeff')]),
    ('l-q-coef', [('polynomials.py', '                x = x + Polynomial({new_term: self.coeffs[term]})', '                c = self.coeffs[term]\n                x += Polynomial({new_term: 1}) * c')]),
    ('l-q-subst', [('polynomials.py', '        ans = 0\n        for ind in self.coeffs:\n            term = self.one() * self.coeffs[ind]\n', '        ans = 0\n        for ind, c in self.coeffs.items():\n            term = self.one()\n            term = term * c\n')]),
    ('l-q-count', [('tableaux.py', '                for partition, count in cls._count_semistandard_rpp(max_entry - 1, nu, lam).items():\n                    if not (partition and m > partition[-1]):\n                        ans[partition + (m,)] += count', '                smaller = cls._count_semistandard_rpp(max_entry - 1, nu, lam)\n                for partition in smaller:\n                    if partition and m > partition[-1]:\n                        continue\n                    key = partition + (m,)\n                    ans[key] = ans[key] + smaller[partition]')]),
    ('l-q-count2', [('tableaux.py', 'ans[updated_partition] += count * nchoosek(len(corners), i)', 'ways = nchoosek(len(corners), i)\n                            ans[updated_partition] = ans.get(updated_partition, 0) + ways * count')]),
    ('l-q-quasi', [('words.py', '                for k, v in cls.quasisymmetrize(sub, zeta).items():\n                    ans[(i,) + k] += z * v', '                rest = z * cls.quasisymmetrize(sub, zeta)\n                for k in rest:\n                    ans[(i,) + k] += rest[k]')]),
    ('l-q-omega', [('symmetric.py', '        return Vector({\n            Partition.transpose(mu): coeff\n            for mu, coeff in cls.schur_expansion(f).items()\n        })', '        ans = {}\n        expansion = cls.schur_expansion(f)\n        for mu in expansion:\n            ans[Partition.transpose(mu)] = expansion[mu]\n        return Vector(ans)')]),
    ('l-q-gpfree', [('symmetric.py', '            ans = cls.gp_free_expansion(f - c * g)\n            return ans + Vector({mu: c})', '            head = Vector({mu: 1}) * c\n            rest = f - g * c\n            return head + cls.gp_free_expansion(rest)')]),
    ('l-q-polynomial', [('symmetric.py', '        ans = Polynomial()\n        for mon, coeff in self.items():\n            ans += mon.polynomial(variable) * coeff\n        return ans', '        return sum([coeff * mon.polynomial(variable) for mon, coeff in self.items()], Polynomial())')]),
    ('l-q-vectorize', [('symmetric.py', '            count *= signs**sum(partition) if signs else 1\n            dictionary[SymmetricMonomial(n, partition)] += count\n', '            weight = 1\n            if signs:\n                weight = signs**sum(partition)\n            mon = SymmetricMonomial(n, partition)\n            dictionary[mon] = dictionary[mon] + weight * count\n')]),
    ('l-q-trunc', [('polynomials.py', '        return self.__class__({\n            mon: coeff\n            for mon, coeff in self.coeffs.items()\n            if mon.degree() <= degree_bound\n        })', '        kept = {}\n        for mon, coeff in self.coeffs.items():\n            if mon.degree() > degree_bound:\n                continue\n            kept[mon] = coeff\n        return type(self)(kept)')]),
    ('l-q-perm', [('permutations.py', '            ans += BETA**(len(w) - ell) * Word.quasisymmetrize(w, Word.unimodal_zeta)', '            power = BETA**(len(w) - ell)\n            term = Word.quasisymmetrize(w, Word.unimodal_zeta) * power\n            ans = ans + term')]),
    ('l-q-rmul', [('boxes.py', '        if type(other) in [int, Polynomial]:\n            ans.vector = self.vector * other\n            return ans\n', '        if type(other) in [int, Polynomial]:\n            if other == 1:\n                return self\n            ans.vector = other * self.vector\n            return ans\n')]),
]
QUIET += [
    ('l-q-derived', [('symmetric.py', "        return Vector({\n            Partition.transpose(mu): coeff\n            for mu, coeff in cls.schur_expansion(f).items()\n        })", "        ans = {}\n        for mu, coeff in cls.schur_expansion(f).items():\n            t = Partition.transpose(mu)\n            key = tuple(t)\n            ans[key] = coeff\n        return Vector(ans)")]),
    ('l-q-nested', [('polynomials.py', "            for j in ind:\n                if i != j:\n                    term *= self.monomial(j, ind[j])\n                else:\n                    assert ind[j] >= 0\n                    term *= e ** ind[j]\n            ans = ans + term", "            power = ind.get(i, 0)\n            assert power >= 0\n            rest = {j: ind[j] for j in ind if j != i}\n            term *= Polynomial({HashableDict(rest): 1})\n            if power:\n                term *= e ** power\n            ans = ans + term")]),
]
BROKEN += [
    ('a-vsub', [('vectors.py', '{key: self[key] - other[key] for key in keys}', '{key: self[key] + other[key] for key in keys}')], ['C21']),
    ('a-vsub-swap', [('vectors.py', '{key: self[key] - other[key] for key in keys}', '{key: other[key] - self[key] for key in keys}')], ['C21']),
    ('a-vadd-keys', [('vectors.py', "            keys = self.keys() | other.keys()\n            return self.__class__(\n                {key: self[key] + other[key] for key in keys}", "            keys = self.keys()\n            return self.__class__(\n                {key: self[key] + other[key] for key in keys}")], ['C21']),
    ('a-vsub-keys', [('vectors.py', "            keys = self.keys() | other.keys()\n            return self.__class__(\n                {key: self[key] - other[key] for key in keys}", "            keys = self.keys() & other.keys()\n            return self.__class__(\n                {key: self[key] - other[key] for key in keys}")], ['C21']),
    ('a-vrsub', [('vectors.py', 'return -self + other', 'return self - other')], ['C21']),
    ('a-vsub-else', [('vectors.py', 'return other.__rsub__(self)', 'return other.__radd__(self)')], ['C21']),
    ('a-norsub', [('vectors.py', '    def __rsub__(self, other):\n        return -self + other\n\n', '')], ['C21']),
    ('a-neg', [('vectors.py', 'return self.__mul__(-1)', 'return self.__mul__(1)')], ['C21']),
    ('a-prsub', [('polynomials.py', 'return -(self - other)', 'return self - other')], ['C21']),
    ('a-psub', [('polynomials.py', 'return self + -other', 'return other + -self')], ['C21']),
    ('a-padd', [('polynomials.py', 'newcoeffs = self.coeffs.copy()\n        for i in other.coeffs', 'newcoeffs = {}\n        for i in other.coeffs')], ['C21']),
    ('a-msub', [('symmetric.py', 'return self.symmetric_polynomial() + (-1 * other)', 'return self.symmetric_polynomial() * -1 + other')], ['C21']),
    ('a-mrsub', [('symmetric.py', 'return self.symmetric_polynomial() * -1 + other', 'return self.symmetric_polynomial() + other')], ['C21']),
    ('a-madd-one', [('symmetric.py', 'return self.symmetric_polynomial() + SymmetricMonomial(self.order()).symmetric_polynomial(other)', 'return self.symmetric_polynomial() + self.symmetric_polynomial(other)')], ['C21']),
    ('a-mmul-one', [('symmetric.py', '            if other == 1:\n                return self\n            elif other == 0', '            if other == -1:\n                return self\n            elif other == 0')], ['C21']),
    ('a-brmul', [('boxes.py', 'return other * self', 'return self * other')], ['C21']),
    ('a-bmul', [('boxes.py', 'ans.vector = self.vector * other.vector', 'ans.vector = other.vector * self.vector')], ['C21']),
    ('a-brsub', [('boxes.py', 'ans.vector = other.vector - self.vector', 'ans.vector = self.vector - other.vector')], ['C21']),
    ('a-bneg', [('boxes.py', 'return 0 - self', 'return self - 0')], ['C21']),
    ('a-vpow-odd', [('vectors.py', 'return x * x * self', 'return x * self')], ['C21']),
    ('a-vpow-half', [('vectors.py', '        if other % 2 == 0:\n            return x * x\n', '        if other % 2 == 1:\n            return x * x\n')], ['C21']),
    ('a-mpow', [('symmetric.py', 'return (f * f) if other % 2 == 0 else (f * f * self)', 'return f * f')], ['C21']),
    ('a-mpow2', [('symmetric.py', 'return (f * f) if other % 2 == 0 else (f * f * self)', 'return (f * f * self) if other % 2 == 0 else (f * f)')], ['C21']),
    ('a-ppow', [('polynomials.py', 'return self * (self**(i - 1))', 'return self * (self**(i - 2))')], ['C21']),
    ('a-wpow-neg', [('permutations.py', 'return self.inverse().__pow__(-n)', 'return self.inverse().__pow__(-n - 1)')], ['C21']),
    ('a-wpow-noinv', [('permutations.py', 'return self.inverse().__pow__(-n)', 'return self.__pow__(-n)')], ['C21']),
    ('a-wpow-q', [('permutations.py', 'q = n - p', 'q = n // 2')], ['C21']),
    ('a-endless', [('vectors.py', 'return self.__mul__(-1)', 'return 0 - self')], ['C21']),
]
QUIET += [
    ('a-q-vsub', [('vectors.py', "        if other == 0:\n            return self\n        if type(other) == type(self):\n            keys = self.keys() | other.keys()\n            return self.__class__(\n                {key: self[key] - other[key] for key in keys},\n                self.printer or other.printer,\n                self.multiplier or other.multiplier\n            )\n        else:\n            return other.__rsub__(self)", "        if other == 0:\n            return self\n        return self + -other")]),
    ('a-q-vrsub', [('vectors.py', 'return -self + other', 'negated = -self\n        return negated + other')]),
    ('a-q-vadd', [('vectors.py', "            keys = self.keys() | other.keys()\n            return self.__class__(\n                {key: self[key] + other[key] for key in keys},", "            total = {key: self[key] for key in self.keys()}\n            for key, value in other.items():\n                total[key] = total.get(key, 0) + value\n            return self.__class__(\n                total,")]),
    ('a-q-vadd2', [('vectors.py', "            keys = self.keys() | other.keys()\n            return self.__class__(\n                {key: self[key] + other[key] for key in keys},", "            keys = set(self)\n            keys.update(other)\n            return self.__class__(\n                {key: self[key] + other[key] for key in keys},")]),
    ('a-q-padd', [('polynomials.py', "        newcoeffs = self.coeffs.copy()\n        for i in other.coeffs:\n            newcoeffs[i] = self[i] + other[i]\n            if newcoeffs[i] == 0:\n                del newcoeffs[i]\n\n        return Polynomial(newcoeffs)\n\n    __radd__", "        newcoeffs = dict(self.coeffs)\n        for i, c in other.coeffs.items():\n            total = newcoeffs.get(i, 0) + c\n            if total == 0:\n                newcoeffs.pop(i, None)\n            else:\n                newcoeffs[i] = total\n        return Polynomial(newcoeffs)\n\n    __radd__")]),
    ('a-q-psub', [('polynomials.py', 'return self + -other', 'return -(other - self) if False else self + (-1) * other')]),
    ('a-q-msub', [('symmetric.py', 'return self.symmetric_polynomial() + (-1 * other)', 'left = self.symmetric_polynomial()\n        return left - other')]),
    ('a-q-bneg', [('boxes.py', 'return 0 - self', 'return self * -1')]),
    ('a-q-brmul', [('boxes.py', '        if type(other) == BoxOperator:\n            return other * self\n        if type(other) == str', '        if type(other) != str:\n            return other * self if type(other) == BoxOperator else self * other\n        if type(other) == str')]),
    ('a-q-badd', [('boxes.py', "        other = BoxOperator(0) * other if type(other) in [int, Polynomial] else other\n        assert type(other) == BoxOperator\n        ans = BoxOperator()\n        ans.vector = other.vector + self.vector\n        return ans", "        return self + other")]),
    ('a-q-vpow', [('vectors.py', "        x = self ** (other // 2)\n        if other % 2 == 0:\n            return x * x\n        else:\n            return x * x * self", "        half = other // 2\n        square = (self ** half) ** 2 if half > 2 else (self * self if half == 1 else self * self * self * self)\n        return square * self if other % 2 else square")]),
    ('a-q-vpow2', [('vectors.py', "        x = self ** (other // 2)\n        if other % 2 == 0:\n            return x * x\n        else:\n            return x * x * self", "        ans = self\n        for _ in range(other - 1):\n            ans = ans * self\n        return ans")]),
    ('a-q-vpow3', [('vectors.py', "        x = self ** (other // 2)\n        if other % 2 == 0:\n            return x * x\n        else:\n            return x * x * self", "        half, odd = divmod(other, 2)\n        x = self ** half\n        x = x * x\n        if odd:\n            x = x * self\n        return x")]),
    ('a-q-vpow4', [('vectors.py', "        x = self ** (other // 2)\n        if other % 2 == 0:\n            return x * x\n        else:\n            return x * x * self", "        ans, base = None, self\n        while other:\n            if other & 1:\n                ans = base if ans is None else ans * base\n            other >>= 1\n            if other:\n                base = base * base\n        return ans")]),
    ('a-q-mpow', [('symmetric.py', 'return (f * f) if other % 2 == 0 else (f * f * self)', 'f = f * f\n            if other % 2:\n                f = f * self\n            return f')]),
    ('a-q-ppow', [('polynomials.py', 'return self * (self**(i - 1))', 'ans = self\n        for _ in range(1, i):\n            ans *= self\n        return ans')]),
]
BROKEN += [
    ('h-G', [('symmetric.py', 'tableaux = Tableau.count_semistandard_setvalued(num_variables, mu, nu)\n        return BETA**(sum(nu) - sum(mu))', 'tableaux = Tableau.count_semistandard_setvalued(num_variables, mu, nu)\n        return BETA**(-sum(mu))')], ['C22']),
    ('h-G-nobeta', [('symmetric.py', 'tableaux = Tableau.count_semistandard_setvalued(num_variables, mu, nu)\n        return BETA**(sum(nu) - sum(mu)) * cls._vectorize(num_variables, tableaux, BETA, degree_bound)', 'tableaux = Tableau.count_semistandard_setvalued(num_variables, mu, nu)\n        return BETA**(sum(nu) - sum(mu)) * cls._vectorize(num_variables, tableaux, -BETA, degree_bound)')], ['C22']),
    ('h-double', [('symmetric.py', 'ans += BETA**(sum(nu) - sum(x)) * cls._stable_grothendieck_q(', 'ans += BETA**(sum(mu) - sum(x)) * cls._stable_grothendieck_q(')], ['C22']),
    ('h-double2', [('symmetric.py', 'ans += BETA**(sum(nu) - sum(x)) * cls._stable_grothendieck_s(', 'ans += BETA**(len(nu) - len(x)) * cls._stable_grothendieck_s(')], ['C22']),
    ('h-double-nu', [('symmetric.py', 'cls._stable_grothendieck_p(num_variables, mu, x, degree_bound)', 'cls._stable_grothendieck_p(num_variables, mu, nu, degree_bound)')], ['C22']),
    ('h-neg', [('symmetric.py', 'v.substitute(0, -BETA)', 'v.substitute(0, BETA)')], ['C22']),
    ('h-dual', [('symmetric.py', "tableaux = Tableau.count_semistandard_rpp(num_variables, mu, nu)\n        return (-BETA)**(sum(mu) - sum(nu))", "tableaux = Tableau.count_semistandard_rpp(num_variables, mu, nu)\n        return BETA**(sum(mu) - sum(nu))")], ['C22']),
    ('h-dual-signs', [('symmetric.py', 'Tableau.semistandard_rpp(num_variables, mu, nu),\n            -BETA**-1', 'Tableau.semistandard_rpp(num_variables, mu, nu),\n            BETA**-1')], ['C22']),
    ('h-dual-s', [('symmetric.py', 'new_nu = tuple((nu[i] if i < len(nu) else 0) + n - i for i in range(n))\n        return cls._dual_stable', 'new_nu = tuple(nu[i] + n - i for i in range(len(nu)))\n        return cls._dual_stable')], ['C22']),
    ('h-trans', [('symmetric.py', 'coeff * (-beta**-1)**(sum(alpha))', 'coeff * (beta**-1)**(sum(alpha))')], ['C22']),
    ('h-trans-default', [('symmetric.py', 'def slow_transposed_dual_stable_grothendieck_q(cls, num_variables, mu, nu=(), beta=-BETA)', 'def slow_transposed_dual_stable_grothendieck_q(cls, num_variables, mu, nu=(), beta=BETA)')], ['C22']),
    ('h-trans-nu', [('symmetric.py', '}) * (-beta)**(sum(mu) - sum(nu))', '}) * (-beta)**sum(mu)')], ['C22']),
    ('h-vectorize', [('symmetric.py', 'signs**sum(partition) if signs else 1', 'signs**len(partition) if signs else 1')], ['C22']),
    ('h-slowvec', [('symmetric.py', '(signs if signs else 1)**sum(alpha)', '(signs if signs else 1)**max(alpha)')], []),
    ('h-perm', [('permutations.py', 'ans += BETA**(len(w) - ell) * Word.quasisymmetrize(w, Word.unimodal_zeta)', 'ans += BETA**(ell - len(w)) * Word.quasisymmetrize(w, Word.unimodal_zeta)')], ['C22']),
    ('h-perm-neg', [('permutations.py', 'ans += BETA**(len(w) - ell) * Word.quasisymmetrize(w, Word.unimodal_zeta)', 'ans += (-BETA)**(len(w) - ell) * Word.quasisymmetrize(w, Word.unimodal_zeta)')], ['C22']),
    ('h-schur', [('symmetric.py', '        tableaux = Tableau.count_semistandard(num_variables, mu, nu)\n        return cls._vectorize(num_variables, tableaux)', '        tableaux = Tableau.count_semistandard(num_variables, mu, nu)\n        return cls._vectorize(num_variables, tableaux, BETA)')], ['C22']),
    ('h-refined', [('symmetric.py', "mapping[t] = (-BETA)**(sum(mu) - sum(nu))", "mapping[t] = (-BETA)**(sum(mu))")], ['C22']),
]
QUIET += [
    ('h-q-helper', [('symmetric.py', "        tableaux = Tableau.count_semistandard_setvalued(num_variables, mu, nu)\n        return BETA**(sum(nu) - sum(mu)) * cls._vectorize(num_variables, tableaux, BETA, degree_bound)", "        tableaux = Tableau.count_semistandard_setvalued(num_variables, mu, nu)\n        return cls._weighted(num_variables, tableaux, mu, nu, degree_bound)\n\n    @classmethod\n    def _weighted(cls, n, tableaux, outer, inner, bound=None):\n        size = sum(outer) - sum(inner)\n        scale = BETA ** -size\n        return scale * cls._vectorize(n, tableaux, signs=BETA, degree_bound=bound)")]),
    ('h-q-size', [('symmetric.py', "        tableaux = Tableau.count_semistandard_rpp(num_variables, mu, nu)\n        return (-BETA)**(sum(mu) - sum(nu)) * cls._vectorize(num_variables, tableaux, -BETA**-1)", "        tableaux = Tableau.count_semistandard_rpp(num_variables, mu, nu)\n        boxes = _skew_size(mu, nu)\n        minus = -1 * BETA\n        return cls._vectorize(num_variables, tableaux, minus**-1) * minus**boxes"), ('symmetric.py', 'class SymmetricMonomial', 'def _skew_size(mu, nu):\n    return sum(mu) - sum(nu)\n\n\nclass SymmetricMonomial')]),
    ('h-q-vectorize', [('symmetric.py', "        dictionary = defaultdict(int)\n        for partition, count in tableaux.items():\n            count *= signs**sum(partition) if signs else 1\n            dictionary[SymmetricMonomial(n, partition)] += count\n        if degree_bound is not None:\n            dictionary = {m: dictionary[m] for m in dictionary if sum(m.mu) <= degree_bound}\n        return SymmetricPolynomial(dictionary)", "        weigh = lambda size: 1\n        if signs:\n            def weigh(size):\n                return signs**size\n        ans = {}\n        for partition in tableaux:\n            degree = sum(partition)\n            if degree_bound is not None and degree > degree_bound:\n                continue\n            mon = SymmetricMonomial(n, partition)\n            ans[mon] = ans.get(mon, 0) + tableaux[partition] * weigh(degree)\n        return SymmetricPolynomial(ans)")]),
    ('h-q-vectorize2', [('symmetric.py', "        dictionary = defaultdict(int)\n        for partition, count in tableaux.items():\n            count *= signs**sum(partition) if signs else 1\n            dictionary[SymmetricMonomial(n, partition)] += count\n        if degree_bound is not None:\n            dictionary = {m: dictionary[m] for m in dictionary if sum(m.mu) <= degree_bound}\n        return SymmetricPolynomial(dictionary)", "        base = 1 if signs is None else signs\n        ans = SymmetricPolynomial({SymmetricMonomial(n, partition): count * base**sum(partition) for partition, count in tableaux.items()})\n        return ans if degree_bound is None else ans.truncate(degree_bound)")]),
    ('h-q-double', [('symmetric.py', "        ans = SymmetricPolynomial()\n        if Partition.contains(mu, nu):\n            for x in Partition.remove_inner_corners(nu):\n                ans += BETA**(sum(nu) - sum(x)) * cls._stable_grothendieck(num_variables, mu, x, degree_bound)\n        return ans", "        if not Partition.contains(mu, nu):\n            return SymmetricPolynomial()\n        outer = sum(nu)\n        pieces = []\n        for x in Partition.remove_inner_corners(nu):\n            gap = outer - sum(x)\n            pieces.append(cls._stable_grothendieck(num_variables, mu, x, degree_bound) * BETA**gap)\n        return sum(pieces, SymmetricPolynomial())")]),
    ('h-q-double2', [('symmetric.py', "        ans = SymmetricPolynomial()\n        if Partition.contains(mu, nu):\n            for x in Partition.remove_inner_corners(nu):\n                ans += BETA**(sum(nu) - sum(x)) * cls._stable_grothendieck(num_variables, mu, x, degree_bound)\n        return ans", "        ans = SymmetricPolynomial()\n        inner = Partition.remove_inner_corners(nu) if Partition.contains(mu, nu) else []\n        for x in inner:\n            term = cls._stable_grothendieck(num_variables, mu, x, degree_bound)\n            for _ in range(sum(nu) - sum(x)):\n                term *= BETA\n            ans = ans + term\n        return ans")]),
    ('h-q-negate', [('symmetric.py', "        dictionary = {k: v.substitute(0, -BETA) for (k, v) in ans.dictionary.items()}\n        return", "        dictionary = {}\n        for k in ans.dictionary:\n            v = ans.dictionary[k]\n            dictionary[k] = v.substitute(0, -BETA)\n        return")]),
    ('h-q-perm', [('permutations.py', "            ans += BETA**(len(w) - ell) * Word.quasisymmetrize(w, Word.unimodal_zeta)", "            excess = len(w) - ell\n            scale = 1 if excess == 0 else BETA**excess\n            ans += Word.quasisymmetrize(w, Word.unimodal_zeta) * scale")]),
    ('h-q-trans', [('symmetric.py', "        return SymmetricPolynomial({\n            SymmetricMonomial(num_variables, alpha): coeff * (-beta**-1)**(sum(alpha))\n            for alpha, coeff in dictionary.items()\n            if Partition.is_partition(alpha)\n        }) * (-beta)**(sum(mu) - sum(nu))", "        size = sum(mu) - sum(nu)\n        ans = {}\n        for alpha, coeff in dictionary.items():\n            if not Partition.is_partition(alpha):\n                continue\n            ans[SymmetricMonomial(num_variables, alpha)] = coeff * (-beta)**(size - sum(alpha))\n        return SymmetricPolynomial(ans)")]),
]
BROKEN += [
    ('a-pmul-neg', [('polynomials.py', 'for t in k if k[t] != 0})', 'for t in k if k[t] > 0})')], ['C21']),
    ('a-pmul-keys', [('polynomials.py', 'k = {t: i.get(t, 0) + j.get(t, 0) for t in i.keys() | j.keys()}', 'k = {t: i.get(t, 0) + j.get(t, 0) for t in i.keys() & j.keys()}')], ['C21']),
    ('a-pmul-sign', [('polynomials.py', 'k = {t: i.get(t, 0) + j.get(t, 0) for t', 'k = {t: i.get(t, 0) - j.get(t, 0) for t')], ['C21']),
    ('a-pmul-sq', [('polynomials.py', 'newcoeffs[k] = newcoeffs[k] + self[i] * f[j]', 'newcoeffs[k] = newcoeffs[k] - self[i] * f[j]')], ['C21']),
    ('a-vadd-if', [('vectors.py', '{key: self[key] + other[key] for key in keys}', '{key: self[key] + other[key] for key in keys if key in self}')], ['C21']),
    ('a-vsub-if', [('vectors.py', '{key: self[key] - other[key] for key in keys}', '{key: self[key] - other[key] for key in keys if self[key] - other[key] > 0}')], ['C21']),
    ('a-bmul-str', [('boxes.py', 'return self * BoxOperator(0, -int(other[1:]))', 'return BoxOperator(0, -int(other[1:])) * self')], ['C21']),
    ('a-madd-bare', [('symmetric.py', 'return self.symmetric_polynomial() + SymmetricMonomial(self.order()).symmetric_polynomial(other)', 'return self.symmetric_polynomial() + other')], ['C21']),
]
QUIET += [
    ('a-q-pmul', [('polynomials.py', "        for i in self.coeffs:\n            for j in f.coeffs:\n                k = {t: i.get(t, 0) + j.get(t, 0) for t in i.keys() | j.keys()}\n                k = HashableDict({t: k[t] for t in k if k[t] != 0})\n                if k in newcoeffs:\n                    newcoeffs[k] = newcoeffs[k] + self[i] * f[j]\n                else:\n                    newcoeffs[k] = self[i] * f[j]\n                if newcoeffs[k] == 0:\n                    del newcoeffs[k]\n        return Polynomial(newcoeffs)", "        for i, a in self.coeffs.items():\n            for j, b in f.coeffs.items():\n                exponents = dict(i)\n                for t, e in j.items():\n                    exponents[t] = exponents.get(t, 0) + e\n                k = HashableDict({t: e for t, e in exponents.items() if e})\n                newcoeffs[k] = newcoeffs.get(k, 0) + a * b\n        return Polynomial({k: c for k, c in newcoeffs.items() if c != 0})")]),
    ('a-q-vsub-if', [('vectors.py', '{key: self[key] - other[key] for key in keys}', '{key: self[key] - other[key] for key in keys if self[key] != other[key]}')]),
]
QUIET += [
    ('h-q-empty', [('symmetric.py', "        new_nu = tuple((nu[i] if i < len(nu) else 0) + n - i for i in range(n))\n        return cls._dual_stable_grothendieck_q(num_variables, new_mu, new_nu)", "        if len(nu) == 0:\n            new_nu = tuple(n - i for i in range(n))\n        else:\n            new_nu = tuple((nu[i] if i < len(nu) else 0) + n - i for i in range(n))\n        return cls._dual_stable_grothendieck_q(num_variables, new_mu, new_nu)")]),
    ('h-q-empty2', [('symmetric.py', "        return BETA**(sum(nu) - sum(mu)) * cls._vectorize(num_variables, tableaux, BETA, degree_bound)", "        ans = cls._vectorize(num_variables, tableaux, BETA, degree_bound)\n        if not nu:\n            return BETA**-sum(mu) * ans\n        return BETA**(sum(nu) - sum(mu)) * ans")]),
]
BROKEN += [
    ('levels-direct', [('permutations.py', "            yield set(level)\n            if length_bound == 0:", "            yield level\n            if length_bound == 0:")], ['C03', 'C32']),
    ('string-array-rows', [('tableaux.py', 'return [list(row) for row in self._string_array]', 'return self._string_array[:]')], ['C32']),
    ('string-array-rows2', [('tableaux.py', 'return [list(row) for row in self._string_array]', 'return list(reversed(self._string_array[::-1]))')], ['C32']),
]
QUIET += [
    ('string-array-q', [('tableaux.py', 'return [list(row) for row in self._string_array]', 'rows = []\n        for row in self._string_array:\n            rows.append(row[:])\n        return rows')]),
    ('levels-q', [('permutations.py', "            yield set(level)\n            if length_bound == 0:", "            mine = level.copy()\n            yield mine\n            if length_bound == 0:")]),
]
BROKEN += [
    ('callback-arity', [('tableaux.py', "return self.apply(lambda x: x // 2)", "return self.apply(lambda x, y: x // 2)")], ['C14']),
    ('callback-arity2', [('insertion.py', "        return insertion_tableau, recording_tableau.apply(lambda x: record[x])", "        def lookup(row, x):\n            return record[x]\n        return insertion_tableau, recording_tableau.apply(lookup)")], ['C14']),
]
QUIET += [
    ('callback-q', [('tableaux.py', "return self.apply(lambda x: x // 2)", "return self.apply(lambda x, d=2: x // d)")]),
    ('callback-q2', [('tableaux.py', "return self.apply(lambda x: x // 2)", "return self.apply(lambda *a: a[0] // 2)")]),
]
BROKEN += [
    ('succ-strict', [('partitions.py', 'for nu in cls.successors(mu[i + 1:], strict):', 'for nu in cls.successors(mu[i + 1:]):')], ['C06']),
    ('any-gen', [('insertion.py', '        offset = abs(q.last())\n        state = FState(p)\n        for index, a', '        args = (abs(a) for a in args)\n        offset = abs(q.last()) if any(args) else 0\n        state = FState(p)\n        for index, a')], ['C08']),
    ('iter-twice', [('vst.py', '        hh = sorted(h1 + h2, key=lambda t: (-t[0], t[1]))\n        hh_by_rows = []', '        hh = iter(sorted(h1 + h2, key=lambda t: (-t[0], t[1])))\n        hh_by_rows = [[] for _ in hh][:0]')], ['C08']),
    ('bump-end', [('insertion.py', '                        return (i, j)\n            return (len(boxes), 0)', '                        return (i, j)\n            if boxes[-1]:\n                return (len(boxes), 0)')], ['C33']),
    ('terminal-unset', [('insertion.py', '            t = self.tableau.remove(i, j)\n            i = t.max_row() + 2\n', '            i = self.tableau.remove(i, j).max_row() + 2\n')], ['C19']),
    ('sort-arg', [('partitions.py', '        ans = tuple(reversed(sorted(mu)))\n', '        if type(mu) == list:\n            mu.sort(reverse=True)\n            ans = tuple(mu)\n        else:\n            ans = tuple(reversed(sorted(mu)))\n')], ['C01']),
    ('trim-arg', [('partitions.py', '        while mu and mu[-1] == 0:\n            mu = mu[:-1]\n        return tuple(mu)', '        while mu and mu[-1] == 0:\n            if isinstance(mu, list):\n                mu.pop()\n            else:\n                mu = mu[:-1]\n        return tuple(mu)')], ['C01']),
    ('isin-list', [('words.py', '    def ascents(cls, v):\n', '    def ascents(cls, v):\n        if isinstance(v, list):\n            v.append(v.pop())\n')], ['C01']),
]
QUIET += [
    ('succ-q', [('partitions.py', '            if i == 0 or mu[i - 1] + (0 if strict else 1) > mu[i] + 1:\n                for nu in cls.successors(mu[i + 1:], strict):', '            gap = 1 if strict else 0\n            if i == 0 or mu[i - 1] - gap >= mu[i] + 1:\n                rest = cls.successors(mu[i + 1:], strict) if strict else cls.successors(mu[i + 1:])\n                for nu in rest:')]),
    ('iter-q', [('insertion.py', '        for index, a in enumerate(args):\n            state, path = state.insert(a)', '        steps = iter(args)\n        for index, a in enumerate(steps):\n            state, path = state.insert(a)')]),
    ('terminal-q', [('insertion.py', '        if len(values) == 1 and n in values:\n            a, b = i, j\n            c = self.get(i, j)\n            t = self.tableau.remove(i, j)\n            j = t.max_column() + 2\n\n        elif len(values) > 1 and n in values:\n            t = self.tableau\n            while (i - 1, j) in t and (i - 1, j + 1) not in t:\n                i = i - 1\n            a, b = i, j + 1\n            c = max(self.get(i, j), self.get(a - 1, b, 0))\n            j = self.tableau.max_column() + 2\n\n        elif len(values) == 1 and -n in values:', '        if n in values:\n            if len(values) > 1:\n                t = self.tableau\n                while (i - 1, j) in t and (i - 1, j + 1) not in t:\n                    i = i - 1\n                a, b = i, j + 1\n                c = max(self.get(i, j), self.get(a - 1, b, 0))\n                j = self.tableau.max_column() + 2\n            else:\n                a, b = i, j\n                c = self.get(i, j)\n                t = self.tableau.remove(i, j)\n                j = t.max_column() + 2\n\n        elif len(values) == 1 and -n in values:')]),
    ('bump-q', [('insertion.py', '                        return (i, j)\n            return (len(boxes), 0)', '                        return (i, j)\n            else:\n                return (len(boxes), 0)')]),
]
BROKEN += [
    ('state-sibling', [('insertion.py', '            return FState(t, (m, j - 1)), (x, j - 1)\n\n        # column transition C4', '            return HState(t, (m, j - 1)), (x, j - 1)\n\n        # column transition C4')], ['C20']),
    ('sort-by-id', [('crystals.py', '            seed = rest.pop()', '            seed = min(rest, key=id)\n            rest.remove(seed)')], ['C30']),
    ('len-of-none', [('partitions.py', '            if cls.remove_shifted_inner_corner(mu, i) is not None:\n                rows += [i]', '            if len(cls.remove_shifted_inner_corner(mu, i)) <= len(mu):\n                rows += [i]')], ['C33']),
]
QUIET += [
    ('state-q', [('insertion.py', '            return FState(t, (m, j - 1)), (x, j - 1)\n\n        # column transition C4', '            return self.__class__(t, (m, j - 1)), (x, j - 1)\n\n        # column transition C4')]),
    ('len-q', [('partitions.py', '            if cls.remove_shifted_inner_corner(mu, i) is not None:\n                rows += [i]', '            smaller = cls.remove_shifted_inner_corner(mu, i)\n            if smaller is None:\n                continue\n            assert len(smaller) <= len(mu)\n            rows.append(i)')]),
]
