From a0b1ef8239376900bc57c613e6e4a019c1e9d0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:55 +0000
Subject: [PATCH 01/26] fix: computing a Schur polynomial no longer strips
 zeros from the caller's partition

---
 schubertpy/utils/mix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/utils/mix.py b/schubertpy/utils/mix.py
index bf7c1ea..4aa54bd 100644
--- a/schubertpy/utils/mix.py
+++ b/schubertpy/utils/mix.py
@@ -65,7 +65,7 @@ def __drop_trailing_zeros__(x):
     return x
 
 def __make_partition__(x):
-    mu = __drop_trailing_zeros__(x)
+    mu = __drop_trailing_zeros__(list(x))
     integers = map(lambda i: isinstance(i, int), mu)
     if not all(integers):
         raise ValueError("invalid integer partition.")
-- 
2.43.0


From efb8edbafd0881f3153c16fe5f9c6ecb473c798a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:58 +0000
Subject: [PATCH 02/26] fix: part2index accepts a partition given as a list

---
 schubertpy/grassmannian.py            | 3 +--
 schubertpy/isotropic_grassmannian.py  | 3 +--
 schubertpy/orthogonal_grassmannian.py | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/schubertpy/grassmannian.py b/schubertpy/grassmannian.py
index 3ef6697..f682d77 100644
--- a/schubertpy/grassmannian.py
+++ b/schubertpy/grassmannian.py
@@ -15,7 +15,6 @@ from .qcalc import (
     part_clip,
     pieri_itrA,
     part_star,
-    part2index,
     part2indexA_inner,
     index2partA_inner,
     dualize_index_inner,
@@ -101,7 +100,7 @@ class Grassmannian(AbstractGrassmannian):
         
     def part2index(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            return part2index(Schur(lc).symbol())
+            return self.part2index(Schur(lc).symbol())
         return apply_lc(lambda lam: part2indexA_inner(lam, self._k, self._n), lc)
         
 
diff --git a/schubertpy/isotropic_grassmannian.py b/schubertpy/isotropic_grassmannian.py
index 93a30c0..be63b56 100644
--- a/schubertpy/isotropic_grassmannian.py
+++ b/schubertpy/isotropic_grassmannian.py
@@ -11,7 +11,6 @@ from .qcalc import (
     part2pair_inner,
     pair2part_inner,
     part2indexC_inner,
-    part2index,
     index2partC_inner,
     dualize_index_inner,
     pieri_set,
@@ -114,7 +113,7 @@ class IsotropicGrassmannian(AbstractGrassmannian):
         
     def part2index(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            return part2index(Schur(lc).symbol())
+            return self.part2index(Schur(lc).symbol())
         return apply_lc(lambda lam: part2indexC_inner(lam, self._k, self._n), lc)
         
 
diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index 156e587..130df05 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -13,7 +13,6 @@ from .qcalc import (
     pair2part_inner,
     part2indexB_inner,
     part2indexD_inner,
-    part2index,
     index2partB_inner,
     index2partD_inner,
     dualize_index_inner,
@@ -154,7 +153,7 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
         
     def part2index(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            return part2index(Schur(lc).symbol())
+            return self.part2index(Schur(lc).symbol())
         
         lc = LinearCombination(lc)
         f = part2indexB_inner
-- 
2.43.0


From a195444d55f1cb217e1ea10231efc4adda80339d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:01 +0000
Subject: [PATCH 03/26] fix: type_swap accepts a partition given as a list

---
 schubertpy/grassmannian.py            | 2 +-
 schubertpy/isotropic_grassmannian.py  | 2 +-
 schubertpy/orthogonal_grassmannian.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/schubertpy/grassmannian.py b/schubertpy/grassmannian.py
index f682d77..00d2f9e 100644
--- a/schubertpy/grassmannian.py
+++ b/schubertpy/grassmannian.py
@@ -119,7 +119,7 @@ class Grassmannian(AbstractGrassmannian):
     
     def type_swap(self, lc: Union[sp.Expr, LinearCombination, str, List[int]], k: int) -> LinearCombination:
         if isinstance(lc, list):
-            return self.type_swap(Schur(lc).symbol())
+            return self.type_swap(Schur(lc).symbol(), k)
         return LinearCombination(lc)
 
     def schub_type(self, lam: Union[Schur, List[int]]) -> int:
diff --git a/schubertpy/isotropic_grassmannian.py b/schubertpy/isotropic_grassmannian.py
index be63b56..971ddf2 100644
--- a/schubertpy/isotropic_grassmannian.py
+++ b/schubertpy/isotropic_grassmannian.py
@@ -132,7 +132,7 @@ class IsotropicGrassmannian(AbstractGrassmannian):
     
     def type_swap(self, lc: Union[sp.Expr, LinearCombination, str, List[int]], k: int) -> LinearCombination:
         if isinstance(lc, list):
-            return self.type_swap(Schur(lc).symbol())
+            return self.type_swap(Schur(lc).symbol(), k)
         return LinearCombination(lc)
 
     def schub_type(self, lam: Union[Schur, List[int]]) -> int:
diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index 130df05..42616d3 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -185,7 +185,7 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
     
     def type_swap(self, lc: Union[sp.Expr, LinearCombination, str, List[int]], k: int) -> LinearCombination:
         if isinstance(lc, list):
-            return self.type_swap(Schur(lc).symbol())
+            return self.type_swap(Schur(lc).symbol(), k)
         
         if self._type == "D":
             return apply_lc(lambda lam: type_swap_inner(lam, self._k), lc)
-- 
2.43.0


From 377a6fdb744c2f2946722ea489c80f1257e75d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:04 +0000
Subject: [PATCH 04/26] fix: OrthogonalGrassmannian.part2pair/pair2part accept
 lists

---
 schubertpy/orthogonal_grassmannian.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index 42616d3..1a15a0a 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -136,8 +136,7 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
 
     def part2pair(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            lc = Schur(lc).symbol()
-            return part2pair_inner(lc, self._k)
+            return LinearCombination(part2pair_inner(lc, self._k))
         else:
             lc = LinearCombination(lc)
             return apply_lc(lambda lam: part2pair_inner(lam, self._k), lc)
@@ -145,8 +144,7 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
 
     def pair2part(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list) and len(lc) == 2:
-            lc = Schur(lc).symbol()
-            return pair2part_inner(lc)
+            return LinearCombination(pair2part_inner(lc))
         else:
             lc = LinearCombination(lc)
             return apply_lc(pair2part_inner, lc)
-- 
2.43.0


From 8bd0c69d244cdb110002ab55b68fca4d9e520f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:07 +0000
Subject: [PATCH 05/26] fix: IsotropicGrassmannian.part2pair/pair2part return a
 LinearCombination for lists too

---
 schubertpy/isotropic_grassmannian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schubertpy/isotropic_grassmannian.py b/schubertpy/isotropic_grassmannian.py
index 971ddf2..16d7bef 100644
--- a/schubertpy/isotropic_grassmannian.py
+++ b/schubertpy/isotropic_grassmannian.py
@@ -99,14 +99,14 @@ class IsotropicGrassmannian(AbstractGrassmannian):
 
     def part2pair(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            return part2pair_inner(lc, self._k)
+            return LinearCombination(part2pair_inner(lc, self._k))
         else:
             return apply_lc(lambda lam: part2pair_inner(lam, self._k), lc)
     
 
     def pair2part(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list) and len(lc) == 2:
-            return pair2part_inner(lc)
+            return LinearCombination(pair2part_inner(lc))
         else:
             return apply_lc(pair2part_inner, lc)
         
-- 
2.43.0


From fbf966d0c711e01a82f8285bc844ff049aa04926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:10 +0000
Subject: [PATCH 06/26] fix: type B and C Pieri products of a list are a
 LinearCombination

---
 schubertpy/isotropic_grassmannian.py  | 2 +-
 schubertpy/orthogonal_grassmannian.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/schubertpy/isotropic_grassmannian.py b/schubertpy/isotropic_grassmannian.py
index 16d7bef..560e03d 100644
--- a/schubertpy/isotropic_grassmannian.py
+++ b/schubertpy/isotropic_grassmannian.py
@@ -149,7 +149,7 @@ class IsotropicGrassmannian(AbstractGrassmannian):
         result = sp.Integer(0)
         for x in pieri_set(i, lam, k, n, 0):
             result += 2**count_comps(lam, x, True, k, 0) * Schur(x)
-        return result
+        return LinearCombination(result)
 
 
     def qpieriC_inner(self, i: int, lam: List[int], k: int, n: int) -> LinearCombination:
diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index 1a15a0a..52d7042 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -215,7 +215,7 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
         pset = pieri_set(p, lam, k, n, 0)
         for mu in pset:
             result += 2**(count_comps(lam, mu, False, k, 0) - b) * Schur(mu)
-        return result
+        return LinearCombination(result)
 
     def qpieriB_inner(self, p: int, lam: List[int], k: int, n: int) -> LinearCombination:
         q = sp.Symbol('q')
-- 
2.43.0


From e0e3ceee7aa39afa1be256d392598b0fb8eeac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:13 +0000
Subject: [PATCH 07/26] fix: the point class of Gr(n,n) is S[]

---
 schubertpy/grassmannian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/grassmannian.py b/schubertpy/grassmannian.py
index 00d2f9e..6497e5f 100644
--- a/schubertpy/grassmannian.py
+++ b/schubertpy/grassmannian.py
@@ -89,7 +89,7 @@ class Grassmannian(AbstractGrassmannian):
 
         if self._k > 0:
             return Schur((([self._k] * (self._n - self._k))))
-        return []
+        return Schur([])
 
     def part2pair(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         raise Exception("Only types B,C,D.")
-- 
2.43.0


From 4a6c18fc17971fc7d5d02e13f286ce6699492ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:16 +0000
Subject: [PATCH 08/26] fix: subtracting a scalar from a LinearCombination
 gives a LinearCombination

---
 schubertpy/lc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 00c56d4..7c1de3d 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -70,7 +70,7 @@ class LinearCombination(object):
         # Handle subtraction when LinearCombination is on the left
         if isinstance(other, (int, float, sp.Symbol, sp.Expr)):
             # Assuming you have a method to create a new LinearCombination from a scalar
-            return self.expr - other
+            return LinearCombination(self.expr - other)
         if isinstance(other, LinearCombination):
             return LinearCombination(self.expr - other.expr)
         else:
@@ -79,7 +79,7 @@ class LinearCombination(object):
     def __rsub__(self, other):
         # Handle subtraction when LinearCombination is on the right
         if isinstance(other, (int, float, sp.Symbol, sp.Expr)):
-            return other - self.expr
+            return LinearCombination(other - self.expr)
         if isinstance(other, LinearCombination):
             return LinearCombination(other.expr - self.expr)
         else:
-- 
2.43.0


From 4a1a895d737c66d953d0c0019c127b9195c27e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:19 +0000
Subject: [PATCH 09/26] fix: schub_type accepts a Schur class

---
 schubertpy/orthogonal_grassmannian.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index 52d7042..4bce45a 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -191,8 +191,11 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
         return LinearCombination(lc)
 
     def schub_type(self, lam: Union[Schur, List[int]]) -> int:
-        if self._type != "D" or not (isinstance(lam, list) or not isinstance(lam, Schur)):
+        if self._type != "D" or not isinstance(lam, (list, Schur)):
             raise ValueError("No type defined.")
+
+        if isinstance(lam, Schur):
+            lam = lam.p
         
         if self._k not in lam:
             return 0
-- 
2.43.0


From 88388f2fe573fa0d3d62bf88049014105eace1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:22 +0000
Subject: [PATCH 10/26] fix: OrthogonalGrassmannian rejects m larger than half
 the dimension

---
 schubertpy/orthogonal_grassmannian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index 4bce45a..8c2db7b 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -36,7 +36,9 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
             raise TypeError("Arguments must be integers")
         if m < 0 or n < 0:
             raise ValueError("Arguments must be non-negative")
-            
+        if m > n//2:
+            raise ValueError(f"m must be less than or equal to {n//2}")
+
         if n % 2 == 1:
             self._type = "B"
             self._k = (n-1)//2 - m
-- 
2.43.0


From fc2b197de16dee1bd30d8804ad6d954c97eb5861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:26 +0000
Subject: [PATCH 11/26] fix: clone() reproduces isotropic and orthogonal
 Grassmannians

---
 schubertpy/abstract_grassmannian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/schubertpy/abstract_grassmannian.py b/schubertpy/abstract_grassmannian.py
index 7076e8f..dbd98af 100644
--- a/schubertpy/abstract_grassmannian.py
+++ b/schubertpy/abstract_grassmannian.py
@@ -100,7 +100,8 @@ class AbstractGrassmannian(ABC):
 
     
     def clone(self):
-        return self.__class__(self._n-self._k, self._n)
+        _, _, _, _, m, n, _ = self.get_type_data()
+        return self.__class__(m, n)
         
 
     def pieri(self, i: int, lc: Union[sp.Expr, LinearCombination, str]) -> LinearCombination:
-- 
2.43.0


From cdf6841f68e2515197f9da8f13deff06996c283f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:29 +0000
Subject: [PATCH 12/26] fix: treat the quantum parameters q1 and q2 as scalars
 when acting

---
 schubertpy/abstract_grassmannian.py | 3 +--
 schubertpy/qcalc.py                 | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/schubertpy/abstract_grassmannian.py b/schubertpy/abstract_grassmannian.py
index dbd98af..2d42876 100644
--- a/schubertpy/abstract_grassmannian.py
+++ b/schubertpy/abstract_grassmannian.py
@@ -193,8 +193,7 @@ class AbstractGrassmannian(ABC):
         # print("act_lc")
         lc = LinearCombination(lc)
 
-        q = sp.Symbol('q')
-        vars = expc.free_symbols - {q}
+        vars = expc.free_symbols - set(sp.symbols('q q1 q2'))
         vars = sorted(vars, key=lambda x: str(x))
         
         # If there are no variables, multiply expc by lc and return
diff --git a/schubertpy/qcalc.py b/schubertpy/qcalc.py
index 70e8b9b..5650fa3 100644
--- a/schubertpy/qcalc.py
+++ b/schubertpy/qcalc.py
@@ -606,8 +606,7 @@ def act_lc(expc: sp.Expr, lc: Union[sp.Expr, LinearCombination, str], pieri: Cal
     # print("act_lc")
     lc = LinearCombination(lc)
 
-    q = sp.Symbol('q')
-    vars = expc.free_symbols - {q}
+    vars = expc.free_symbols - set(sp.symbols('q q1 q2'))
     vars = sorted(vars, key=lambda x: str(x))
     
     # If there are no variables, multiply expc by lc and return
-- 
2.43.0


From a2eda930a15bd37804b5cec6d3970ea345bd3417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:32 +0000
Subject: [PATCH 13/26] fix: quantum products are returned expanded

---
 schubertpy/abstract_grassmannian.py  | 2 +-
 schubertpy/grassmannian.py           | 2 +-
 schubertpy/isotropic_grassmannian.py | 2 +-
 schubertpy/qcalc.py                  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/schubertpy/abstract_grassmannian.py b/schubertpy/abstract_grassmannian.py
index 2d42876..68e1382 100644
--- a/schubertpy/abstract_grassmannian.py
+++ b/schubertpy/abstract_grassmannian.py
@@ -198,7 +198,7 @@ class AbstractGrassmannian(ABC):
         
         # If there are no variables, multiply expc by lc and return
         if len(vars) == 0:
-            return LinearCombination(expc * lc)
+            return LinearCombination(sp.expand(expc * lc.expr))
 
         v = list(vars)[0]
         
diff --git a/schubertpy/grassmannian.py b/schubertpy/grassmannian.py
index 6497e5f..6c13d06 100644
--- a/schubertpy/grassmannian.py
+++ b/schubertpy/grassmannian.py
@@ -161,7 +161,7 @@ class Grassmannian(AbstractGrassmannian):
             z = apply_lc(lambda x: part_star(x, k - 1), self.pieriA_inner(i - 1, lab, k - 1, n))
             if isinstance(z, sp.Number):
                 z = LinearCombination(z)
-            res += q * sp.expand(z.expr)
+            res += sp.expand(q * z.expr)
         return LinearCombination(res)
     
     def qmult_rh(
diff --git a/schubertpy/isotropic_grassmannian.py b/schubertpy/isotropic_grassmannian.py
index 560e03d..5796cf6 100644
--- a/schubertpy/isotropic_grassmannian.py
+++ b/schubertpy/isotropic_grassmannian.py
@@ -156,4 +156,4 @@ class IsotropicGrassmannian(AbstractGrassmannian):
         q = sp.Symbol('q')
         inner_result = self.pieriC_inner(i, lam, k, n)
         second_term = q/2 * apply_lc(lambda x: part_star(x, n+k+1), self.pieriC_inner(i, lam, k, n+1))
-        return inner_result + second_term
+        return LinearCombination(sp.expand((inner_result + second_term).expr))
diff --git a/schubertpy/qcalc.py b/schubertpy/qcalc.py
index 5650fa3..c44824a 100644
--- a/schubertpy/qcalc.py
+++ b/schubertpy/qcalc.py
@@ -611,7 +611,7 @@ def act_lc(expc: sp.Expr, lc: Union[sp.Expr, LinearCombination, str], pieri: Cal
     
     # If there are no variables, multiply expc by lc and return
     if len(vars) == 0:
-        return LinearCombination(expc * lc)
+        return LinearCombination(sp.expand(expc * lc.expr))
 
     v = list(vars)[0]
     
-- 
2.43.0


From bd281dac5856b2260d48287a070c76c64397ff95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:36 +0000
Subject: [PATCH 14/26] fix: complement partitions are sorted explicitly, not
 by set order

---
 schubertpy/orthogonal_grassmannian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index 8c2db7b..111c825 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -298,7 +298,7 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
 
 
     def _toSchurFromIntnMu(self, _intn: set, _mu: List[int]) -> LinearCombination:
-        sch = Schur((list(_intn - set(_mu))[::-1]))
+        sch = Schur(sorted(_intn - set(_mu), reverse=True))
         return LinearCombination(sch.symbol())
 
     @hashable_lru_cache_method(maxsize=None)
-- 
2.43.0


From d952fa9fc74b6093e890aef41dfb87833556a8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:39 +0000
Subject: [PATCH 15/26] fix: Schur arithmetic accepts the zero
 LinearCombination

---
 schubertpy/schur.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/schubertpy/schur.py b/schubertpy/schur.py
index 6ad8275..c0f7f51 100644
--- a/schubertpy/schur.py
+++ b/schubertpy/schur.py
@@ -47,7 +47,7 @@ class Schur(object):
             return self.symbol() + other.symbol()
         if isinstance(other, (int, float, sp.Expr, sp.Number)):
             return self.symbol() + other
-        if other.expr and isinstance(other.expr, sp.Expr):
+        if isinstance(getattr(other, 'expr', None), sp.Expr):
             return self.symbol() + other.expr
         raise ValueError(f"Invalid type for addition: {type(other)}")
     
@@ -58,7 +58,7 @@ class Schur(object):
             return self.symbol() * other.symbol()
         if isinstance(other, (int, float, sp.Expr, sp.Number)):
             return self.symbol() * other
-        if other.expr and isinstance(other.expr, sp.Expr):
+        if isinstance(getattr(other, 'expr', None), sp.Expr):
             return self.symbol() * other.expr
         raise ValueError(f"Invalid type for addition: {type(other)}")
     
@@ -69,7 +69,7 @@ class Schur(object):
             return self.symbol() ** other.symbol()
         if isinstance(other, (int, float, sp.Expr, sp.Number)):
             return self.symbol() ** other
-        if other.expr and isinstance(other.expr, sp.Expr):
+        if isinstance(getattr(other, 'expr', None), sp.Expr):
             return self.symbol() ** other.expr
         raise ValueError(f"Invalid type for addition: {type(other)}")
 
-- 
2.43.0


From 0576df53b17a54953b0caf98229664e2378d609b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:16 +0000
Subject: [PATCH 16/26] fix: a LinearCombination can be combined with a Schur
 class on either side

---
 schubertpy/lc.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 7c1de3d..6b35031 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -38,7 +38,8 @@ class LinearCombination(object):
         return self.__str__()
     
     def __add__(self, other):
-        if isinstance(other, LinearCombination):
+        if isinstance(other, (LinearCombination, Schur)):
+            other = LinearCombination(other)
             return LinearCombination(self.expr + other.expr)
         if isinstance(other, (int, float, sp.Expr, sp.Number)):
             return LinearCombination(self.expr + other)
@@ -48,7 +49,8 @@ class LinearCombination(object):
 
     def __mul__(self, other):
         # Handle scalar multiplication
-        if isinstance(other, LinearCombination):
+        if isinstance(other, (LinearCombination, Schur)):
+            other = LinearCombination(other)
             return LinearCombination(self.expr * other.expr)
         if isinstance(other, (int, float, sp.Expr, sp.Number)):
             return LinearCombination(self.expr * other)
@@ -71,7 +73,8 @@ class LinearCombination(object):
         if isinstance(other, (int, float, sp.Symbol, sp.Expr)):
             # Assuming you have a method to create a new LinearCombination from a scalar
             return LinearCombination(self.expr - other)
-        if isinstance(other, LinearCombination):
+        if isinstance(other, (LinearCombination, Schur)):
+            other = LinearCombination(other)
             return LinearCombination(self.expr - other.expr)
         else:
             raise TypeError(f"Unsupported operand type(s) for -: '{type(self)}' and '{type(other)}'")
@@ -80,7 +83,8 @@ class LinearCombination(object):
         # Handle subtraction when LinearCombination is on the right
         if isinstance(other, (int, float, sp.Symbol, sp.Expr)):
             return LinearCombination(other - self.expr)
-        if isinstance(other, LinearCombination):
+        if isinstance(other, (LinearCombination, Schur)):
+            other = LinearCombination(other)
             return LinearCombination(other.expr - self.expr)
         else:
             raise TypeError(f"Unsupported operand type(s) for -: '{type(other)}' and '{type(self)}'")
-- 
2.43.0


From 5e3ffee6367728e2beaddc215ba6ba4fc38d93a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:19 +0000
Subject: [PATCH 17/26] fix: a Schur class owns its partition, and accepts
 tuples

---
 schubertpy/schur.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/schubertpy/schur.py b/schubertpy/schur.py
index c0f7f51..cee87d6 100644
--- a/schubertpy/schur.py
+++ b/schubertpy/schur.py
@@ -8,17 +8,19 @@ from .utils.const import btable, ftable
 from .utils.mix import SchurPol
 from .utils.kstrict import part_clip
 
+def _copy_parts(p) -> list:
+    """Copy a partition (or a pair of partitions) into fresh lists."""
+    return [_copy_parts(x) if isinstance(x, (list, tuple)) else x for x in p]
+
+
 class Schur(object):
     def __init__(self, p: Union[List[int], sp.Expr, str, 'Schur']):
         # Set self.p to p or [] if p is None
-        if isinstance(p, (list, tuple)):
-            self.p = p if p is not None else []
-            return
         if isinstance(p, Schur):
-            self.p = p.p
-            return
-        p = toSchur(p)
-        self.p = p.p
+            p = p.p
+        elif not isinstance(p, (list, tuple)):
+            p = toSchur(p).p
+        self.p = _copy_parts(p)
 
     def __str__(self):
         return f"S{self.p}".replace(' ', '')
@@ -77,7 +79,7 @@ class Schur(object):
         return sp.parse_expr(self.__str__().translate(ftable))
 
     def partition(self) -> List[int]:
-        return self.p
+        return _copy_parts(self.p)
     
     def has_part_zero_padding(self) -> bool:
         return part_clip(self.p) != self.p
-- 
2.43.0


From 62954dcbdb75fb4d51771138f78f4a1b036524c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:22 +0000
Subject: [PATCH 18/26] fix: a Partition owns its list of parts

---
 schubertpy/partition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/partition.py b/schubertpy/partition.py
index b00c12a..4eaf1e9 100644
--- a/schubertpy/partition.py
+++ b/schubertpy/partition.py
@@ -36,7 +36,7 @@ class Partition:
     def __init__(self, partition: List[int]):
         if not is_valid_part(partition):
             raise ValueError("Invalid partition")
-        self.partition = partition
+        self.partition = list(partition)
 
     def __str__(self):
         return str(self.partition)
-- 
2.43.0


From 6a289fde338aec8ce270dea67be748f58a8ccbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:25 +0000
Subject: [PATCH 19/26] fix: draw_ascii_partition handles the empty partition

---
 schubertpy/lc.py        | 4 ++--
 schubertpy/utils/mix.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 6b35031..849c361 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -337,14 +337,14 @@ class LinearCombination(object):
         
         # Prepare the ASCII art lines
         ascii_lines = []
-        max_height = 0
+        max_height = 1
         
         for coeff, part in expansion:
             max_height = max(max_height, len(part))
         
         part_count = 0
         for coeff, part in expansion:
-            part_ascii = embed_partition(part, max(part), max_height)
+            part_ascii = embed_partition(part, max(part, default=0), max_height)
             coeff_str = ""
             if coeff != 1:
                 coeff_str = f"{coeff}*"
diff --git a/schubertpy/utils/mix.py b/schubertpy/utils/mix.py
index 4aa54bd..f77303b 100644
--- a/schubertpy/utils/mix.py
+++ b/schubertpy/utils/mix.py
@@ -32,7 +32,7 @@ def embed_str(s: str, height: int) -> List[str]:
 
 def embed_partition(partition: List[int], width, height: int) -> List[str]:
     res = partition_to_ascii(partition)
-    if width*2 > len(res[0]):
+    if res and width*2 > len(res[0]):
         for i, row in enumerate(res):
             res[i] = row + "  "*(width - int(len(row)/2))
     if height > len(res):
-- 
2.43.0


From 60bee90c994bc508730708b79e6e903c9392b104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:28 +0000
Subject: [PATCH 20/26] fix: the only partition inside the empty rectangle is
 the empty one

---
 schubertpy/qcalc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/qcalc.py b/schubertpy/qcalc.py
index c44824a..eefc5dd 100644
--- a/schubertpy/qcalc.py
+++ b/schubertpy/qcalc.py
@@ -78,7 +78,7 @@ def part_gen(lam: List[int]):
     if lam is None:
         return []
     if lam == []:
-        return []
+        return [[]]
     
     mu = lam.copy()
     ret = []
-- 
2.43.0


From 6b949ffb3626daa436c8f6b7ea2d18e21817f3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:31 +0000
Subject: [PATCH 21/26] fix: acting by the identity class is refused with a
 ValueError

---
 schubertpy/abstract_grassmannian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/schubertpy/abstract_grassmannian.py b/schubertpy/abstract_grassmannian.py
index 68e1382..556e77e 100644
--- a/schubertpy/abstract_grassmannian.py
+++ b/schubertpy/abstract_grassmannian.py
@@ -185,6 +185,8 @@ class AbstractGrassmannian(ABC):
             sc = toSchur(sc)
         if not isinstance(sc, Schur):
             raise ValueError("special schubert class expected")
+        if len(sc.p) == 0:
+            raise ValueError("special schubert class expected")
         if len(sc.p) > 1 and (self._type != "D" or sc.p[1] != 0):
             raise ValueError("single part expected")
         return -sc.p[0] if len(sc.p) > 1 else sc.p[0]
-- 
2.43.0


From 184aa7de0f0ebb7e4454dcb960f19587d9c8585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:33 +0000
Subject: [PATCH 22/26] fix: export_png closes its figure when saving fails

---
 schubertpy/schur.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/schubertpy/schur.py b/schubertpy/schur.py
index cee87d6..81468f5 100644
--- a/schubertpy/schur.py
+++ b/schubertpy/schur.py
@@ -152,8 +152,10 @@ class Schur(object):
     def export_png(self, filename: str) -> None:
         """Exports the partition as a PNG image."""
         fig, ax = self.plot_partition()
-        plt.savefig(filename, bbox_inches='tight', pad_inches=0.1)
-        plt.close(fig)
+        try:
+            fig.savefig(filename, bbox_inches='tight', pad_inches=0.1)
+        finally:
+            plt.close(fig)
     
     def to_polinomial_str(self, n) -> str:
         """
-- 
2.43.0


From aaf747f7032e3e3b35e585a6c8f34de06c5a614c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:36 +0000
Subject: [PATCH 23/26] fix: schur_to_sage_schur passes the partition, not the
 method

---
 schubertsage/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertsage/conversion.py b/schubertsage/conversion.py
index 07d0499..d1537d7 100644
--- a/schubertsage/conversion.py
+++ b/schubertsage/conversion.py
@@ -24,4 +24,4 @@ def sage_schur_to_schur(sage_schur: SymmetricFunctionAlgebra_schur) -> Schur:
     return Schur(partition)
 
 def schur_to_sage_schur(schur) -> SymmetricFunctionAlgebra_schur:
-    return S(schur.partition)
\ No newline at end of file
+    return S(schur.partition())
\ No newline at end of file
-- 
2.43.0


From d1e51bc6371f81be71b3aab99578a3470bec3bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:39 +0000
Subject: [PATCH 24/26] fix: sage_schur_to_schur refuses sums instead of
 dropping terms

---
 schubertsage/conversion.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/schubertsage/conversion.py b/schubertsage/conversion.py
index d1537d7..6710c38 100644
--- a/schubertsage/conversion.py
+++ b/schubertsage/conversion.py
@@ -15,13 +15,13 @@ S = sym.schur()
 
 # Function to convert from SageMath Schur function to Schur object
 def sage_schur_to_schur(sage_schur: SymmetricFunctionAlgebra_schur) -> Schur:
-    print(type(sage_schur))
     if sage_schur.parent()!=S:
         raise ValueError("SageMath Schur function is not a Schur function")
     
-    partition = list(sage_schur.monomial_coefficients().keys())[0]
-    print(partition)
-    return Schur(partition)
+    terms = list(sage_schur.monomial_coefficients().items())
+    if len(terms) != 1 or terms[0][1] != 1:
+        raise ValueError("SageMath element is not a single Schur function")
+    return Schur(list(terms[0][0]))
 
 def schur_to_sage_schur(schur) -> SymmetricFunctionAlgebra_schur:
     return S(schur.partition())
\ No newline at end of file
-- 
2.43.0


From 537308c46f0f83bc2b722dea668491e4fbe296b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:42 +0000
Subject: [PATCH 25/26] fix: schur_expansion keeps fractional coefficients of
 the identity class

---
 schubertpy/lc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 849c361..4c8b88d 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -279,7 +279,7 @@ class LinearCombination(object):
             expression type is not supported for Schur expansion.
         """
         if isinstance(expr, sp.Number):
-            return (int(expr),[])
+            return (int(expr) if expr.is_Integer else expr, [])
         if isSchur(expr):
             return (1, toSchur(str(expr)).partition())
         if isinstance(expr, sp.Mul):
-- 
2.43.0


From 33d74d65c12224affec4254901acee8dbb500120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:17 +0000
Subject: [PATCH 26/26] fix: schur_expansion(include_q=False) also drops a lone
 q term

---
 schubertpy/lc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 4c8b88d..1170373 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -315,6 +315,8 @@ class LinearCombination(object):
         representing the partition of a Schur function, or raises a ValueError if the
         expression cannot be expanded into Schur components.
         """
+        if not include_q and not isinstance(self.expr, sp.Add) and 'q' in str(self.expr):
+            return []
         return self._schur_expansion(self.expr, include_q)
 
     def draw_ascii_partition(self, include_q=True):
-- 
2.43.0

