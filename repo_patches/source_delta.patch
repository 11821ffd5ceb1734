From 019fce1b9b290e77c42b5e2f3d74c61dc6713ab6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:47:24 +0000
Subject: [PATCH 01/19] fix: negative powers of a monomial with coefficient -1
 keep the right sign

---
 polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polynomials.py b/polynomials.py
index 1088159..2a27ed3 100644
--- a/polynomials.py
+++ b/polynomials.py
@@ -232,7 +232,7 @@ class Polynomial:
                     new_ind = ind.copy()
                     for key in new_ind:
                         new_ind[key] *= i
-                    new_coeffs[HashableDict(new_ind)] = self.coeffs[ind]
+                    new_coeffs[HashableDict(new_ind)] = self.coeffs[ind] ** (-i)
                 return Polynomial(new_coeffs)
             return None
         return self * (self**(i - 1))
-- 
2.43.0


From 0103db83fe1e625c56d9cbedfb6f8c83cde132db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:03 +0000
Subject: [PATCH 02/19] fix: divide_linear refers to the variable constructor
 it means

---
 polynomials.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polynomials.py b/polynomials.py
index 2a27ed3..141c28a 100644
--- a/polynomials.py
+++ b/polynomials.py
@@ -138,8 +138,8 @@ class Polynomial:
 
     def divide_linear(self, i, c):
         # divide by x(i) + c
-        ans = self.substitute(i, x(i) - c) * self.monomial(i, -1)
-        return ans.substitute(i, x(i) + c)
+        ans = self.substitute(i, self.x(i) - c) * self.monomial(i, -1)
+        return ans.substitute(i, self.x(i) + c)
 
     def __getitem__(self, i):
         i = HashableDict(i)
-- 
2.43.0


From c752587c7cb612d70e60d424106e21dd421de3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:09 +0000
Subject: [PATCH 03/19] fix: equal polynomials print and hash alike whatever
 order their terms were built in

---
 polynomials.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polynomials.py b/polynomials.py
index 141c28a..9931e45 100644
--- a/polynomials.py
+++ b/polynomials.py
@@ -287,7 +287,7 @@ class Polynomial:
     @classmethod
     def index_to_str(cls, ind):
         s = ''
-        for i in ind:
+        for i in sorted(ind):
             if ind[i] != 0:
                 s = s + ' ' + cls.letters(i)
                 if ind[i] != 1:
@@ -308,7 +308,7 @@ class Polynomial:
             for i in sorted(index):
                 c += index[i]
                 ans += abs(index[i]) * [-i]
-            return (c,) + tuple(ans)
+            return (c,) + tuple(ans), tuple(sorted(index.items()))
 
         s = ''
         filtered = filter(lambda x: self[x] != 0, self.coeffs)
-- 
2.43.0


From f72d9c010792e374833459cc475fd77f195353a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:27 +0000
Subject: [PATCH 04/19] fix: shifted_ribbons enumerates ribbons instead of
 failing on the trimmed last part

---
 partitions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/partitions.py b/partitions.py
index d3acfbb..3abbb23 100644
--- a/partitions.py
+++ b/partitions.py
@@ -388,9 +388,9 @@ class Partition:
     def shifted_ribbons(cls, n):
         def generate(nu, lam, ub=None):
             if len(nu) == 0:
-                yield nu, lam
+                yield [], []
             else:
-                lb = lam[0]
+                lb = cls.get(lam, 1)
                 ub = nu[0] if ub is None else min(nu[0], ub)
                 for a in range(lb, ub + 1):
                     for x, y in generate(nu[1:], lam[1:], a - 1):
-- 
2.43.0


From 753c35b2545462e8ee328c8939a37252bde0ef65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:09 +0000
Subject: [PATCH 05/19] fix: the zeroth power of a permutation is the identity
 instead of a TypeError

---
 permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/permutations.py b/permutations.py
index 4ffe4af..c3903b4 100644
--- a/permutations.py
+++ b/permutations.py
@@ -916,7 +916,7 @@ class Permutation:
         if n < 0:
             return self.inverse().__pow__(-n)
         elif n == 0:
-            return Permutation.identity(self.rank)
+            return Permutation.identity()
         elif n == 1:
             return Permutation(*self.oneline)
         else:
-- 
2.43.0


From 15321ca67ab33d1b32cf8e4910b21b20d541342e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:09 +0000
Subject: [PATCH 06/19] fix: is_fpf_grassmannian is false for permutations that
 are not fixed-point-free involutions

---
 permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/permutations.py b/permutations.py
index c3903b4..d02f499 100644
--- a/permutations.py
+++ b/permutations.py
@@ -343,7 +343,7 @@ class Permutation:
         return self.get_inv_grassmannian(*self.involution_shape()) == self
 
     def is_fpf_grassmannian(self):
-        if not self.is_unsigned() and self.is_fpf_involution():
+        if not (self.is_unsigned() and self.is_fpf_involution()):
             return False
         return self._fpf_grassmannian_shape() is not None
 
-- 
2.43.0


From 16ae3254df4f86521d48126a37638549ff9e8535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:09 +0000
Subject: [PATCH 07/19] fix: involution Bruhat covers skip subwords that are
 not involution words instead of failing

---
 permutations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/permutations.py b/permutations.py
index d02f499..505bd5e 100644
--- a/permutations.py
+++ b/permutations.py
@@ -1090,7 +1090,7 @@ class Permutation:
         word = self.get_involution_word()
         for i in range(len(word)):
             w = Permutation.from_involution_word(word[:i] + word[i + 1:])
-            if w.involution_length == self.involution_length - 1:
+            if w is not None and w.involution_length == self.involution_length - 1:
                 yield w
 
     def fpf_involution_bruhat_covers(self):
@@ -1098,7 +1098,7 @@ class Permutation:
         word = self.get_fpf_involution_word()
         for i in range(len(word)):
             w = Permutation.from_fpf_involution_word(word[:i] + word[i + 1:])
-            if w.fpf_involution_length == self.fpf_involution_length - 1:
+            if w is not None and w.fpf_involution_length == self.fpf_involution_length - 1:
                 yield w
 
     def tau(self, i, j):
-- 
2.43.0


From cb87226d982dd54a6b4008cfc053155b382473d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:09 +0000
Subject: [PATCH 08/19] fix: Bruhat transitions yield the covers their
 documentation describes

---
 permutations.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/permutations.py b/permutations.py
index 505bd5e..4b51d38 100644
--- a/permutations.py
+++ b/permutations.py
@@ -1149,23 +1149,23 @@ class Permutation:
     def upper_transitions(self, r):
         """Yields j > r such that self * self.transposition(r, j) covers self in Bruhat order."""
         n = self.rank
-        for i in range(r + 1, n + 1):
+        for i in range(r + 1, max(n, r) + 2):
             t = Permutation.transposition(r, i)
-            if (t * self * t).length == self.length + 1:
+            if (self * t).length == self.length + 1:
                 yield i
 
     def lower_transitions(self, r):
         """Yields i < r such that self * self.transposition(i, r) covers self in Bruhat order."""
         for i in range(1, r):
             t = Permutation.transposition(i, r)
-            if (t * self * t).length == self.length + 1:
+            if (self * t).length == self.length + 1:
                 yield i
 
     def upper_involution_transitions(self, r):
         """Yields j > r such that self.tau(r, j) covers self in Bruhat order."""
         assert self.is_involution()
         n = self.rank
-        for i in range(r + 1, n + 1):
+        for i in range(r + 1, max(n, r) + 2):
             if self.tau(r, i).involution_length == self.involution_length + 1:
                 yield i
 
-- 
2.43.0


From 2ae4ee35dd3893c15140e55a557039b4caa97f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:09 +0000
Subject: [PATCH 09/19] fix: Hecke word levels are not skipped when another
 enumeration extends the cache meanwhile

---
 permutations.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/permutations.py b/permutations.py
index 4b51d38..4149f6b 100644
--- a/permutations.py
+++ b/permutations.py
@@ -503,10 +503,11 @@ class Permutation:
         key = (n, ascent_bound)
 
         def generate():
-            for level in HECKE_CACHE[key][:-1]:
+            cached = list(HECKE_CACHE[key])
+            for level in cached[:-1]:
                 yield level
-            if HECKE_CACHE[key]:
-                level = HECKE_CACHE[key][-1]
+            if cached:
+                level = cached[-1]
             else:
                 start = (cls.identity(), ())
                 level = {start}
@@ -550,10 +551,11 @@ class Permutation:
         key = (n, ascent_bound, hecke)
 
         def generate():
-            for level in SYMPLECTIC_HECKE_CACHE[key][:-1]:
+            cached = list(SYMPLECTIC_HECKE_CACHE[key])
+            for level in cached[:-1]:
                 yield level
-            if SYMPLECTIC_HECKE_CACHE[key]:
-                level = SYMPLECTIC_HECKE_CACHE[key][-1]
+            if cached:
+                level = cached[-1]
             else:
                 a = cls.identity()
                 for i in range(1, n, 2):
@@ -600,10 +602,11 @@ class Permutation:
         key = (n, peak_bound, hecke)
 
         def generate():
-            for level in ORTHOGONAL_HECKE_CACHE[key][:-1]:
+            cached = list(ORTHOGONAL_HECKE_CACHE[key])
+            for level in cached[:-1]:
                 yield level
-            if ORTHOGONAL_HECKE_CACHE[key]:
-                level = ORTHOGONAL_HECKE_CACHE[key][-1]
+            if cached:
+                level = cached[-1]
             else:
                 start = (cls.identity(), ())
                 level = {start}
-- 
2.43.0


From d038d6e8646b9345ccd30d3efb4f8a05ef23d1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:46 +0000
Subject: [PATCH 10/19] fix: transposition accepts the optional size its
 callers pass

---
 permutations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/permutations.py b/permutations.py
index 4149f6b..4e2412b 100644
--- a/permutations.py
+++ b/permutations.py
@@ -947,7 +947,8 @@ class Permutation:
         return cls(*caller)
 
     @classmethod
-    def transposition(cls, i, j):
+    def transposition(cls, i, j, n=None):
+        """The transposition of i and j; the optional size n is accepted but does not matter."""
         return cls.reflection_t(i, j)
 
     @classmethod
-- 
2.43.0


From 6bb76057ccd150137dad420ae6387d6efddca128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:52 +0000
Subject: [PATCH 11/19] fix: integers can be subtracted from and compared with
 symmetric monomials

---
 symmetric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symmetric.py b/symmetric.py
index 74f5208..930c75a 100644
--- a/symmetric.py
+++ b/symmetric.py
@@ -104,10 +104,10 @@ class SymmetricMonomial:
             return self.symmetric_polynomial() + other
 
     def __rsub__(self, other):
-        return self.symmetric_polynomial() * -1 + other
+        return (self - other) * -1
 
     def __sub__(self, other):
-        return self.symmetric_polynomial() + (-1 * other)
+        return self + (-1 * other)
 
     def __rmul__(self, other):
         return self * other
-- 
2.43.0


From 8a0958ff53b5170e153a6202ce723ee26dcf2c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:52 +0000
Subject: [PATCH 12/19] fix: gp_free_expansion handles a constant term

---
 symmetric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symmetric.py b/symmetric.py
index 930c75a..046f795 100644
--- a/symmetric.py
+++ b/symmetric.py
@@ -535,7 +535,7 @@ class SymmetricPolynomial(Vector):
             mu = max(exp)
             n = max(f).n
             c = exp[mu]
-            g = 1
+            g = cls.dual_stable_grothendieck_p(n, ())
             for part in mu:
                 g *= cls.dual_stable_grothendieck_p(n, (part,))
             ans = cls.gp_free_expansion(f - c * g)
-- 
2.43.0


From d30f7aad7e92211d489fcb0ef2efaffea0e8dcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:27 +0000
Subject: [PATCH 13/19] fix: utils provides the function names the README
 documents

---
 utils.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/utils.py b/utils.py
index 3a68196..1d52f72 100644
--- a/utils.py
+++ b/utils.py
@@ -40,10 +40,15 @@ def shifted_ribbon(alpha):
     return tuple(mu), tuple(nu)
 
 
-s = SymmetricPolynomial.schur
-P = SymmetricPolynomial.schur_p
-Q = SymmetricPolynomial.schur_q
-S = SymmetricPolynomial.schur_s
+schur = SymmetricPolynomial.schur
+schur_P = SymmetricPolynomial.schur_p
+schur_Q = SymmetricPolynomial.schur_q
+schur_S = SymmetricPolynomial.schur_s
+
+s = schur
+P = schur_P
+Q = schur_Q
+S = schur_S
 
 G = grothendieck
 GP = grothendieck_P
@@ -59,9 +64,13 @@ GP_doublebar = SymmetricPolynomial.stable_grothendieck_p_doublebar
 GQ_doublebar = SymmetricPolynomial.stable_grothendieck_q_doublebar
 GS_doublebar = SymmetricPolynomial.stable_grothendieck_s_doublebar
 
-g = SymmetricPolynomial.dual_stable_grothendieck
-gp = SymmetricPolynomial.dual_stable_grothendieck_p
-gq = SymmetricPolynomial.dual_stable_grothendieck_q
+dual_grothendieck = SymmetricPolynomial.dual_stable_grothendieck
+dual_grothendieck_P = SymmetricPolynomial.dual_stable_grothendieck_p
+dual_grothendieck_Q = SymmetricPolynomial.dual_stable_grothendieck_q
+
+g = dual_grothendieck
+gp = dual_grothendieck_P
+gq = dual_grothendieck_Q
 gs = SymmetricPolynomial.dual_stable_grothendieck_s
 
 mp_g = SymmetricPolynomial.mp_dual_stable_grothendieck
-- 
2.43.0


From 3a00140c66518298280a234d43cbe5559c8d3012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:40 +0000
Subject: [PATCH 14/19] fix: shifted row and column removal operators keep the
 coefficients of their argument

---
 operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/operators.py b/operators.py
index f56efb6..5011475 100644
--- a/operators.py
+++ b/operators.py
@@ -67,7 +67,7 @@ def operator_shifted_row_remove(index):
                 mu = Partition.remove_shifted_inner_corner(mu, row)
                 if mu is None:
                     break
-                ans += Vector({mu: (-beta) ** e})
+                ans += Vector({mu: (-beta) ** e * coefficient})
                 e += 1
         return ans
     return op
@@ -84,7 +84,7 @@ def operator_shifted_column_remove(index):
             while row is not None:
                 i = i + 1
                 mu = Partition.remove_inner_corner(mu, row)
-                ans += Vector({mu: (-beta) ** e})
+                ans += Vector({mu: (-beta) ** e * coefficient})
                 row = Partition.find_shifted_inner_corner(mu, i)
                 e += 1
         return ans
-- 
2.43.0


From 8a5b4d976f273815f91a1e17e69143bc820e64c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:18 +0000
Subject: [PATCH 15/19] fix: dual S-functions of shapes that are not contained
 in each other are zero

---
 symmetric.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/symmetric.py b/symmetric.py
index 046f795..01cf500 100644
--- a/symmetric.py
+++ b/symmetric.py
@@ -422,6 +422,8 @@ class SymmetricPolynomial(Vector):
     def dual_stable_grothendieck_s(cls, num_variables, mu, nu=()):  # noqa
         n = len(mu)
         assert n == 0 or mu[n - 1] > 0
+        if not Partition.contains(mu, nu):
+            return SymmetricPolynomial()
         new_mu = tuple(mu[i] + n - i for i in range(n))
         new_nu = tuple((nu[i] if i < len(nu) else 0) + n - i for i in range(n))
         return cls._dual_stable_grothendieck_q(num_variables, new_mu, new_nu)
@@ -761,6 +763,8 @@ class SymmetricPolynomial(Vector):
     def slow_transposed_dual_stable_grothendieck_s(cls, num_variables, mu, nu=(), beta=-BETA):  # noqa
         n = len(mu)
         assert n == 0 or mu[n - 1] > 0
+        if not Partition.contains(mu, nu):
+            return SymmetricPolynomial()
         new_mu = tuple(mu[i] + n - i for i in range(n))
         new_nu = tuple((nu[i] if i < len(nu) else 0) + n - i for i in range(n))
         return cls._slow_transposed_dual_stable_grothendieck_q(num_variables, new_mu, new_nu, beta)
-- 
2.43.0


From 3af060155e7220c2b27dcf51a74722cf0b490e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:35 +0000
Subject: [PATCH 16/19] fix: crystal strings start at the elements outside the
 image of the lowering operator

---
 crystals.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crystals.py b/crystals.py
index a700cf5..a6842b2 100644
--- a/crystals.py
+++ b/crystals.py
@@ -7,7 +7,8 @@ import subprocess
 class CrystalMixin:
 
     def istrings(self, i):
-        ans = [[x] for x in range(len(self)) if self[x].e_crystal_operator(i) is None]
+        images = {self.f_crystal_operator(x, i) for x in range(len(self))}
+        ans = [[x] for x in range(len(self)) if x not in images]
         for j in range(len(ans)):
             while True:
                 x = self.f_crystal_operator(ans[j][-1], i)
-- 
2.43.0


From c76071bb2c55671f53ceba8eff7abdbaaf8ede21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:19 +0000
Subject: [PATCH 17/19] fix: vertical neighbours of a valued-set tableau are
 joined by the flag of the primed box in the later row

---
 vst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vst.py b/vst.py
index 3983fe4..d42ce39 100644
--- a/vst.py
+++ b/vst.py
@@ -636,7 +636,7 @@ class ValuedSetTableau:
         if i == x and y + 1 == j:
             return self.in_same_group(x, y, i, j)
         if i + 1 == x and y == j:
-            return bool(self.grouping.get(i, j, default=False)) and self.tableau.get(i, j) < 0
+            return bool(self.grouping.get(x, y, default=False)) and self.tableau.get(x, y) < 0
         if i == x + 1 and y == j:
             return self.in_same_group(x, y, i, j)
         return False
-- 
2.43.0


From d2775c9e466e022ece6858c370522dbf0a86422b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:19 +0000
Subject: [PATCH 18/19] fix: printables and shifted_printables passed the
 shifted flag as the inner shape and raised TypeError

---
 partitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/partitions.py b/partitions.py
index 3abbb23..c9f0897 100644
--- a/partitions.py
+++ b/partitions.py
@@ -182,7 +182,7 @@ class Partition:
         gap = '   ->    '
         lines = []
         for mu in partitions:
-            diagram = cls.printable(mu, shifted).split('\n')
+            diagram = cls.printable(mu, shifted=shifted).split('\n')
             if lines:
                 m = max(len(lines), len(diagram))
                 if len(lines) < m:
-- 
2.43.0


From 914124fd62fbd5b524f1ea33b9e14219e683b580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:53 +0000
Subject: [PATCH 19/19] fix: BoxOperator.commutator used a variable with
 negative index that X refuses

---
 boxes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/boxes.py b/boxes.py
index c937f47..68fd65b 100644
--- a/boxes.py
+++ b/boxes.py
@@ -1,5 +1,5 @@
 from vectors import Vector
-from polynomials import Polynomial, X
+from polynomials import Polynomial, X, Y
 
 
 def r(i):
@@ -59,7 +59,7 @@ class BoxOperator:
 
     @classmethod
     def commutator(cls, n):
-        x, y = X(1), X(-1)
+        x, y = X(1), Y(-1)
 
         lhs = BoxOperator(0)
         for i in range(n, -n - 1, -1):
-- 
2.43.0

