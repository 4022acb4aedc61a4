From 513ce496aed1c75c2ff8698418ad2feac7d07cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 01/22] fix: print equal polynomials identically

The text of a monomial followed the insertion order of its exponent dictionary and
terms with the same degree key followed that of the coefficient dictionary, so equal
polynomials printed (and hashed) differently.
---
 polynomials.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polynomials.py b/polynomials.py
index 1088159..6ab4078 100644
--- a/polynomials.py
+++ b/polynomials.py
@@ -287,7 +287,7 @@ class Polynomial:
     @classmethod
     def index_to_str(cls, ind):
         s = ''
-        for i in ind:
+        for i in sorted(ind):
             if ind[i] != 0:
                 s = s + ' ' + cls.letters(i)
                 if ind[i] != 1:
@@ -308,7 +308,7 @@ class Polynomial:
             for i in sorted(index):
                 c += index[i]
                 ans += abs(index[i]) * [-i]
-            return (c,) + tuple(ans)
+            return (c, tuple(ans), tuple(sorted(index.items())))
 
         s = ''
         filtered = filter(lambda x: self[x] != 0, self.coeffs)
-- 
2.43.0


From 4d894ece5e5f130bb3a6dbeeee86864875858da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 02/22] fix: give constant polynomials the hash of the integer
 they equal

---
 polynomials.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/polynomials.py b/polynomials.py
index 6ab4078..d6aff6f 100644
--- a/polynomials.py
+++ b/polynomials.py
@@ -324,6 +324,8 @@ class Polynomial:
         return s
 
     def __hash__(self):
+        if self.is_integer():
+            return hash(self.constant_term())
         return hash(str(self))
 
     @classmethod
-- 
2.43.0


From d4b436304969837968f70ee4d82b32795442f034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 03/22] fix: make Vector.__hash__ agree with Vector.__eq__

The hash was that of the printed text, which depends on the printer; equality does not.
---
 vectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectors.py b/vectors.py
index eab211a..102a0a1 100644
--- a/vectors.py
+++ b/vectors.py
@@ -9,7 +9,7 @@ class Vector:
         self.multiplier = multiplier
 
     def __hash__(self):
-        return hash(str(self))
+        return hash(frozenset(self.items()))
 
     @classmethod
     def print_matrix(cls, matrix):
-- 
2.43.0


From 384e7ab216e2b929fd783acd7a1a363ea8198221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 04/22] fix: Permutation.__pow__(0) called identity() with an
 argument it does not take

---
 permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/permutations.py b/permutations.py
index 4ffe4af..c3903b4 100644
--- a/permutations.py
+++ b/permutations.py
@@ -916,7 +916,7 @@ class Permutation:
         if n < 0:
             return self.inverse().__pow__(-n)
         elif n == 0:
-            return Permutation.identity(self.rank)
+            return Permutation.identity()
         elif n == 1:
             return Permutation(*self.oneline)
         else:
-- 
2.43.0


From d0c45b88ece686fe6f88980182c207c32aabe4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 05/22] fix: pass shifted to Partition.printable as shifted,
 not as the inner shape

---
 partitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/partitions.py b/partitions.py
index d3acfbb..43db919 100644
--- a/partitions.py
+++ b/partitions.py
@@ -182,7 +182,7 @@ class Partition:
         gap = '   ->    '
         lines = []
         for mu in partitions:
-            diagram = cls.printable(mu, shifted).split('\n')
+            diagram = cls.printable(mu, shifted=shifted).split('\n')
             if lines:
                 m = max(len(lines), len(diagram))
                 if len(lines) < m:
-- 
2.43.0


From 7dd412ce72b941f6e866601edf5ed6090eb59838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:16 +0000
Subject: [PATCH 06/22] fix: test, store and read the partition table under one
 key

Results were stored without max_row, under a key that was never looked up.
---
 partitions.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/partitions.py b/partitions.py
index 43db919..75e93df 100644
--- a/partitions.py
+++ b/partitions.py
@@ -333,10 +333,11 @@ class Partition:
         if n == 0:
             yield ()
         else:
-            if (n, max_part, max_row, strict, even_parts) not in PARTITIONS:
+            max_part = n if (max_part is None or max_part > n) else max_part
+            max_row = n if (max_row is None or max_row > n) else max_row
+            key = (n, max_part, max_row, strict, even_parts)
+            if key not in PARTITIONS:
                 ans = []
-                max_part = n if (max_part is None or max_part > n) else max_part
-                max_row = n if (max_row is None or max_row > n) else max_row
                 if max_row > 0:
                     for i in range(1, max_part + 1):
                         if even_parts and i % 2 != 0:
@@ -346,9 +347,9 @@ class Partition:
                             if not strict or Partition.is_strict_partition(nu):
                                 ans.append(nu)
                                 yield nu
-                PARTITIONS[(n, max_part, strict, even_parts)] = ans
+                PARTITIONS[key] = ans
             else:
-                for mu in PARTITIONS[(n, max_part, strict, even_parts)]:
+                for mu in PARTITIONS[key]:
                     yield mu
 
     @classmethod
-- 
2.43.0


From 389ea373e4373ff4dba09220305e1347526e5f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:16 +0000
Subject: [PATCH 07/22] fix: Polynomial.divide_linear used an undefined name

---
 polynomials.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polynomials.py b/polynomials.py
index d6aff6f..a78c166 100644
--- a/polynomials.py
+++ b/polynomials.py
@@ -138,8 +138,8 @@ class Polynomial:
 
     def divide_linear(self, i, c):
         # divide by x(i) + c
-        ans = self.substitute(i, x(i) - c) * self.monomial(i, -1)
-        return ans.substitute(i, x(i) + c)
+        ans = self.substitute(i, self.monomial(i) - c) * self.monomial(i, -1)
+        return ans.substitute(i, self.monomial(i) + c)
 
     def __getitem__(self, i):
         i = HashableDict(i)
-- 
2.43.0


From c8036f7f6e66a49259642cf7465809cb7f83aa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:16 +0000
Subject: [PATCH 08/22] fix: raise the coefficient too in negative powers of a
 monomial

(-x)**-2 was -x**-2.
---
 polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polynomials.py b/polynomials.py
index a78c166..4937b00 100644
--- a/polynomials.py
+++ b/polynomials.py
@@ -232,7 +232,7 @@ class Polynomial:
                     new_ind = ind.copy()
                     for key in new_ind:
                         new_ind[key] *= i
-                    new_coeffs[HashableDict(new_ind)] = self.coeffs[ind]
+                    new_coeffs[HashableDict(new_ind)] = self.coeffs[ind] ** abs(i)
                 return Polynomial(new_coeffs)
             return None
         return self * (self**(i - 1))
-- 
2.43.0


From 1ba6da3783ace56c56d797ca48c9058a4828c726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:16 +0000
Subject: [PATCH 09/22] fix: define Vector.__rsub__, so that 0 - v works as 0 +
 v does

---
 vectors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vectors.py b/vectors.py
index 102a0a1..89ef5e7 100644
--- a/vectors.py
+++ b/vectors.py
@@ -165,6 +165,9 @@ class Vector:
         else:
             return other.__rsub__(self)
 
+    def __rsub__(self, other):
+        return -self + other
+
     def __mul__(self, other):
         if type(other) in [int, Polynomial]:
             return self.__class__(
-- 
2.43.0


From eefbfaf12c42447f261c318700c2dec1bc650840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:16 +0000
Subject: [PATCH 10/22] fix: copy the coefficients given to a Polynomial

---
 polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polynomials.py b/polynomials.py
index 4937b00..5fbf70c 100644
--- a/polynomials.py
+++ b/polynomials.py
@@ -62,7 +62,7 @@ class Polynomial:
         return self + other + X(0) * self * other
 
     def __init__(self, coeffs={}):
-        self.coeffs = coeffs
+        self.coeffs = dict(coeffs)
 
     def __mod__(self, o):
         assert type(o) == int
-- 
2.43.0


From 3d044449d51b2eae78ef96903c7e934b90d8818b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:16 +0000
Subject: [PATCH 11/22] fix: make the shifted removal operators linear

The coefficient of the input term was dropped.
---
 operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/operators.py b/operators.py
index f56efb6..8616576 100644
--- a/operators.py
+++ b/operators.py
@@ -67,7 +67,7 @@ def operator_shifted_row_remove(index):
                 mu = Partition.remove_shifted_inner_corner(mu, row)
                 if mu is None:
                     break
-                ans += Vector({mu: (-beta) ** e})
+                ans += Vector({mu: coefficient * (-beta) ** e})
                 e += 1
         return ans
     return op
@@ -84,7 +84,7 @@ def operator_shifted_column_remove(index):
             while row is not None:
                 i = i + 1
                 mu = Partition.remove_inner_corner(mu, row)
-                ans += Vector({mu: (-beta) ** e})
+                ans += Vector({mu: coefficient * (-beta) ** e})
                 row = Partition.find_shifted_inner_corner(mu, i)
                 e += 1
         return ans
-- 
2.43.0


From 9765628ce00afacbf7c92689c4f4224164e3d11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:16 +0000
Subject: [PATCH 12/22] fix: do not wait for console input when an expansion
 fails

---
 symmetric.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/symmetric.py b/symmetric.py
index 74f5208..5045229 100644
--- a/symmetric.py
+++ b/symmetric.py
@@ -458,7 +458,6 @@ class SymmetricPolynomial(Vector):
                 print(function.__name__)
                 print('f[t] =', f[t], '==', c * BETA**cdeg, f)
                 print('g[t] =', g[t], '==', d, g)
-                input('\n\n')
                 raise Exception
 
             assert c % d == 0
@@ -480,7 +479,6 @@ class SymmetricPolynomial(Vector):
                 print('expected =', expected)
                 print()
                 print('ans =', ans)
-                input('\n\n')
                 raise Exception
 
             return ans
-- 
2.43.0


From 9212b4ec8ada7d9b85a82ebf8907b3277aa508a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 13/22] fix: Tableau.rpp_excess summed positions instead of
 counting them

---
 tableaux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tableaux.py b/tableaux.py
index fe09bf6..399dd99 100644
--- a/tableaux.py
+++ b/tableaux.py
@@ -436,7 +436,7 @@ class Tableau:
         return sum([len(v) - 1 for _, _, v in self])
 
     def rpp_excess(self):
-        return sum([(i, j) for i, j, v in self if v is self.get(i + 1, j)])
+        return sum([1 for i, j, v in self if v == self.get(i + 1, j)])
 
     COLUMN_SPACING_OFFSET = 2
 
-- 
2.43.0


From 9f81cc51996817609af3db87ad487f0aaf4471d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:41 +0000
Subject: [PATCH 14/22] fix: hand out copies of memoized collections

Callers shared the cached set, list or dict, so changing a result changed
every later answer.
---
 cached.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cached.py b/cached.py
index 5b9c602..f013e75 100644
--- a/cached.py
+++ b/cached.py
@@ -7,6 +7,7 @@ def cached_value(cache):
             key = tuple(args)
             if key not in cache:
                 cache[key] = f(cls, *args)
-            return cache[key]
+            value = cache[key]
+            return value.copy() if isinstance(value, (dict, list, set)) else value
         return wrapped_f
     return wrap
-- 
2.43.0


From 8b02822325c651f688bf12a52dd9322b5efb02f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:41 +0000
Subject: [PATCH 15/22] fix: do not share memoized words, atoms and descent
 sets with callers

---
 permutations.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/permutations.py b/permutations.py
index c3903b4..f2f2260 100644
--- a/permutations.py
+++ b/permutations.py
@@ -780,7 +780,7 @@ class Permutation:
                     s = Permutation.s_i(i)
                     ans |= {word + (i,) for word in (s * w * s).get_fpf_involution_words()}
             FPF_INVOLUTION_WORDS[oneline] = ans
-        return FPF_INVOLUTION_WORDS[oneline]
+        return set(FPF_INVOLUTION_WORDS[oneline])
 
     def __call__(self, i):
         if 0 < i <= self.rank:
@@ -845,13 +845,13 @@ class Permutation:
             for i in range(1, self.rank):
                 if self(i) > self(i + 1):
                     self._rdes.add(i)
-        return self._rdes
+        return set(self._rdes)
 
     @property
     def left_descent_set(self):
         if self._ldes is None:
             self._ldes = self.inverse().right_descent_set
-        return self._ldes
+        return set(self._ldes)
 
     def __len__(self):
         if self._len is None:
@@ -1003,14 +1003,14 @@ class Permutation:
             else:
                 ans = [Permutation()]
             ATOMS_FPF_CACHE[w] = list(ans)
-        return ATOMS_FPF_CACHE[w]
+        return list(ATOMS_FPF_CACHE[w])
 
     def get_atoms(self):
         assert self == self.inverse()
         w = self
         if w not in atoms_b_cache:
             atoms_b_cache[w] = list(w._get_atoms())
-        return atoms_b_cache[w]
+        return list(atoms_b_cache[w])
 
     def _get_atoms(self):
         def involution(oneline):
@@ -1047,7 +1047,7 @@ class Permutation:
         w = self
         if w not in atoms_d_cache:
             atoms_d_cache[w] = list(w._get_atoms_d())
-        return atoms_d_cache[w]
+        return list(atoms_d_cache[w])
 
     def _get_atoms_d(self):
         def length(w):
-- 
2.43.0


From cc573003616234f4c2c3066a7a010353e5dce465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:53 +0000
Subject: [PATCH 16/22] fix: do not share the boxes and text rows of a tableau
 with callers

---
 insertion.py | 2 +-
 tableaux.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/insertion.py b/insertion.py
index d7cf246..62f21a3 100644
--- a/insertion.py
+++ b/insertion.py
@@ -212,7 +212,7 @@ class InsertionState:
 
     @property
     def boxes(self):
-        return self.tableau.boxes
+        return dict(self.tableau.boxes)
 
     def is_initial(self):
         return self.outer is not None and self.outer[0] == 1
diff --git a/tableaux.py b/tableaux.py
index 399dd99..97f848f 100644
--- a/tableaux.py
+++ b/tableaux.py
@@ -324,7 +324,7 @@ class Tableau:
             return self.apply(lambda x: -x)
 
     def serialize(self):
-        return self.boxes
+        return dict(self.boxes)
 
     def last_box_in_row(self, row):
         cols = [c for (i, c) in self.boxes if i == row]
@@ -467,7 +467,7 @@ class Tableau:
                     row += [pad(boxes.get((i, j), '.'), j)]
                 array += [row]
             self._string_array = array if not FRENCH else list(reversed(array))
-        return self._string_array
+        return [list(row) for row in self._string_array]
 
     def __repr__(self):
         array = self.string_array
-- 
2.43.0


From ee503d99afee3ef1fc3cee4542e5d0dde03bdf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:52 +0000
Subject: [PATCH 17/22] fix: Partition.shifted_ribbons joined lists to the
 tuples shifted_ribbon returns

---
 partitions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/partitions.py b/partitions.py
index 75e93df..b91abf6 100644
--- a/partitions.py
+++ b/partitions.py
@@ -391,11 +391,11 @@ class Partition:
             if len(nu) == 0:
                 yield nu, lam
             else:
-                lb = lam[0]
+                lb = lam[0] if lam else 0
                 ub = nu[0] if ub is None else min(nu[0], ub)
                 for a in range(lb, ub + 1):
                     for x, y in generate(nu[1:], lam[1:], a - 1):
-                        yield [nu[0]] + x, [a] + y
+                        yield (nu[0],) + x, (a,) + y
 
         seen = set()
         for alpha in cls.compositions(n):
-- 
2.43.0


From 0f148ee872c5ee88450ec1343ddee9ed189e3000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:11 +0000
Subject: [PATCH 18/22] fix: involution Bruhat covers skip subwords that are
 not reduced

---
 permutations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/permutations.py b/permutations.py
index f2f2260..1c7aeba 100644
--- a/permutations.py
+++ b/permutations.py
@@ -1090,7 +1090,7 @@ class Permutation:
         word = self.get_involution_word()
         for i in range(len(word)):
             w = Permutation.from_involution_word(word[:i] + word[i + 1:])
-            if w.involution_length == self.involution_length - 1:
+            if w is not None and w.involution_length == self.involution_length - 1:
                 yield w
 
     def fpf_involution_bruhat_covers(self):
@@ -1098,7 +1098,7 @@ class Permutation:
         word = self.get_fpf_involution_word()
         for i in range(len(word)):
             w = Permutation.from_fpf_involution_word(word[:i] + word[i + 1:])
-            if w.fpf_involution_length == self.fpf_involution_length - 1:
+            if w is not None and w.fpf_involution_length == self.fpf_involution_length - 1:
                 yield w
 
     def tau(self, i, j):
-- 
2.43.0


From 78718b76432fb67b1a845b48a094c1fc9113c7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:59 +0000
Subject: [PATCH 19/22] fix: hecke level generators skip no level when two of
 them are advanced in turn

---
 permutations.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/permutations.py b/permutations.py
index 1c7aeba..fa1ebf1 100644
--- a/permutations.py
+++ b/permutations.py
@@ -503,10 +503,11 @@ class Permutation:
         key = (n, ascent_bound)
 
         def generate():
-            for level in HECKE_CACHE[key][:-1]:
+            levels = list(HECKE_CACHE[key])
+            for level in levels[:-1]:
                 yield level
-            if HECKE_CACHE[key]:
-                level = HECKE_CACHE[key][-1]
+            if levels:
+                level = levels[-1]
             else:
                 start = (cls.identity(), ())
                 level = {start}
@@ -550,10 +551,11 @@ class Permutation:
         key = (n, ascent_bound, hecke)
 
         def generate():
-            for level in SYMPLECTIC_HECKE_CACHE[key][:-1]:
+            levels = list(SYMPLECTIC_HECKE_CACHE[key])
+            for level in levels[:-1]:
                 yield level
-            if SYMPLECTIC_HECKE_CACHE[key]:
-                level = SYMPLECTIC_HECKE_CACHE[key][-1]
+            if levels:
+                level = levels[-1]
             else:
                 a = cls.identity()
                 for i in range(1, n, 2):
@@ -600,10 +602,11 @@ class Permutation:
         key = (n, peak_bound, hecke)
 
         def generate():
-            for level in ORTHOGONAL_HECKE_CACHE[key][:-1]:
+            levels = list(ORTHOGONAL_HECKE_CACHE[key])
+            for level in levels[:-1]:
                 yield level
-            if ORTHOGONAL_HECKE_CACHE[key]:
-                level = ORTHOGONAL_HECKE_CACHE[key][-1]
+            if levels:
+                level = levels[-1]
             else:
                 start = (cls.identity(), ())
                 level = {start}
-- 
2.43.0


From 7f29d46cbdeb5a2145a7d007a1904f8b919e8aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:59 +0000
Subject: [PATCH 20/22] fix: hecke level generators hand out copies of the
 remembered levels

---
 permutations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/permutations.py b/permutations.py
index fa1ebf1..58b7453 100644
--- a/permutations.py
+++ b/permutations.py
@@ -526,7 +526,7 @@ class Permutation:
         for i, level in enumerate(generate()):
             if i >= len(HECKE_CACHE[key]):
                 HECKE_CACHE[key].append(level)
-            yield level
+            yield set(level)
             if length_bound == 0:
                 break
             length_bound -= 1
@@ -579,7 +579,7 @@ class Permutation:
         for i, level in enumerate(generate()):
             if i >= len(SYMPLECTIC_HECKE_CACHE[key]):
                 SYMPLECTIC_HECKE_CACHE[key].append(level)
-            yield level
+            yield set(level)
             if length_bound == 0:
                 break
             length_bound -= 1
@@ -626,7 +626,7 @@ class Permutation:
         for i, level in enumerate(generate()):
             if i >= len(ORTHOGONAL_HECKE_CACHE[key]):
                 ORTHOGONAL_HECKE_CACHE[key].append(level)
-            yield level
+            yield set(level)
             if length_bound == 0:
                 break
             length_bound -= 1
-- 
2.43.0


From ccd244b4b2c1a99b541efabab99b62eeb2703779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:59 +0000
Subject: [PATCH 21/22] fix: evaluating a Laurent polynomial at an integer
 stays exact

---
 polynomials.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/polynomials.py b/polynomials.py
index 5fbf70c..0204c3b 100644
--- a/polynomials.py
+++ b/polynomials.py
@@ -152,7 +152,12 @@ class Polynomial:
         for ind in self.coeffs:
             factor = self.coeffs[ind]
             for j in ind:
-                factor = factor * x.get(j, self.monomial(j, 1))**ind[j]
+                value = x.get(j, self.monomial(j, 1))
+                if isinstance(value, int) and ind[j] < 0:
+                    assert abs(value) == 1
+                    factor = factor * value**-ind[j]
+                else:
+                    factor = factor * value**ind[j]
             ans = ans + factor
         return ans
 
-- 
2.43.0


From e27d4baaa2fdbd83a2cd1303a104ed3b49a3e982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:09 +0000
Subject: [PATCH 22/22] fix: subtracting a number and a symmetric monomial
 raised TypeError (also m == 1)

---
 symmetric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symmetric.py b/symmetric.py
index 5045229..c85d75e 100644
--- a/symmetric.py
+++ b/symmetric.py
@@ -104,10 +104,10 @@ class SymmetricMonomial:
             return self.symmetric_polynomial() + other
 
     def __rsub__(self, other):
-        return self.symmetric_polynomial() * -1 + other
+        return (self - other) * -1
 
     def __sub__(self, other):
-        return self.symmetric_polynomial() + (-1 * other)
+        return self + (-1 * other)
 
     def __rmul__(self, other):
         return self * other
-- 
2.43.0

