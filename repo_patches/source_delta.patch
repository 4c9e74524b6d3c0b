From 7d16ed4a484efdd49f28813bda3aa31a228d406b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 16:50:21 +0000
Subject: [PATCH 01/25] fix: reject OG(m,n) with m > n/2 instead of building a
 space with negative k

---
 schubertpy/orthogonal_grassmannian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index 156e587..6529ef4 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -37,6 +37,8 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
             raise TypeError("Arguments must be integers")
         if m < 0 or n < 0:
             raise ValueError("Arguments must be non-negative")
+        if m > n//2:
+            raise ValueError(f"m must be less than or equal to {n//2}")
             
         if n % 2 == 1:
             self._type = "B"
-- 
2.43.0


From 4028fc24304654a9580913e1951bb9ed0fabb419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 02/25] fix: remove real rim hooks and take their signs one by
 one in qmult_rh

The removal subtracted strips that are not rim hooks and measured the height
of the whole removed shape, so products with two or more hooks (q^2) came out
wrong, e.g. S[3,2,1]*S[3,3] in Gr(3,6).
---
 schubertpy/grassmannian.py |  2 +-
 schubertpy/partition.py    | 81 +++++++++++++++-----------------------
 2 files changed, 33 insertions(+), 50 deletions(-)

diff --git a/schubertpy/grassmannian.py b/schubertpy/grassmannian.py
index 3ef6697..d37aa7d 100644
--- a/schubertpy/grassmannian.py
+++ b/schubertpy/grassmannian.py
@@ -205,7 +205,7 @@ class Grassmannian(AbstractGrassmannian):
             # print("let's remove the rim hooks with rim_size = ", rim_size, " and acceptable_grid = ", acceptable_grid)
             x, q_num, height = p.remove_rim_hooks(rim_size=rim_size, acceptable_grid=acceptable_grid)
 
-            sign = (-1)**(height-kp)
+            sign = (-1)**(height-kp*q_num)
             # sign = (-1)**(n - kp - height)
 
             # print("removed rim hooks:", x, "\tq_num = ", q_num, "\theight = ", height, "\tsign = ", sign)
diff --git a/schubertpy/partition.py b/schubertpy/partition.py
index b00c12a..90aac87 100644
--- a/schubertpy/partition.py
+++ b/schubertpy/partition.py
@@ -1,4 +1,4 @@
-from typing import List, Tuple
+from typing import List, Optional, Tuple
 
 def part_clip(lambda_: List[int]) -> List[int]:
     '''
@@ -97,59 +97,42 @@ class Partition:
 
         nrow, ncol = acceptable_grid
         current_partition = self.partition.copy()  # Use a copy to avoid modifying the original partition
-        total_rim_hooks_removed = 0  # Initialize the rim hook count
+        total_rim_hooks_removed = 0
+        total_height = 0
         
         while True:
-            _partition = current_partition + [0]  # Append 0 to handle the difference calculation
-            _rim_size = rim_size
-            rim_hook_removed_this_iteration = False  # Flag to check if a rim hook was removed
-        
-            for i in range(len(_partition) - 1):
-                delta = _partition[i] - _partition[i + 1]
-                if delta >= _rim_size:
-                    # Rim hook is entirely within a single row
-                    _partition[i] -= _rim_size
-                    _rim_size = 0
-                    total_rim_hooks_removed += 1  # Increment the rim hook count
-                    # Height of single-row rim hook is 0
-                    rim_hook_removed_this_iteration = True
-                    break
-                if _partition[i + 1] > 0:
-                    delta += 1
-                _rim_size -= delta
-                _partition[i] -= delta
-                if _rim_size <= 0:
-                    if _partition[i] < _partition[i+1]:
-                        break
-                    total_rim_hooks_removed += 1  # Increment the rim hook count
-                    # Rim hook spans two rows, height = 1
-                    rim_hook_removed_this_iteration = True
-                    break
-
-
-            if rim_hook_removed_this_iteration:
-                # Accumulate the height of the removed rim hook
-                if not _is_non_increasing(_partition):
-                    # The partition is not valid after modification
-                    return Partition([]), total_rim_hooks_removed, skew_partition_height([], self.partition)
-
-                _partition = part_clip(_partition)
-                new_partition = Partition(_partition)
-
-                if new_partition.is_in_range(nrow, ncol):
-                    # The new partition fits within the acceptable grid
-                    return new_partition, total_rim_hooks_removed, skew_partition_height(new_partition.partition, self.partition)
-
-                if new_partition.partition == current_partition:
-                    # No further changes can be made; exit the loop
-                    return Partition([]), total_rim_hooks_removed, skew_partition_height([], self.partition)
-
-                # Update the partition for the next iteration
-                current_partition = new_partition.partition
-            else:
+            removed = _remove_one_rim_hook(current_partition, rim_size)
+            if removed is None:
                 # Unable to remove a rim hook of the specified size
                 return 0, 0, 0
 
+            current_partition, height = removed
+            total_rim_hooks_removed += 1
+            total_height += height
+
+            new_partition = Partition(current_partition)
+            if new_partition.is_in_range(nrow, ncol):
+                # The new partition fits within the acceptable grid
+                return new_partition, total_rim_hooks_removed, total_height
+
+
+def _remove_one_rim_hook(partition: List[int], rim_size: int) -> Optional[Tuple[List[int], int]]:
+    """
+    Removes the topmost rim hook of the given size from the partition.
+
+    Returns the new partition together with the height (the number of rows) of
+    the removed rim hook, or None if no rim hook of that size can be removed.
+    """
+    rows = part_clip(partition) + [0]
+    for top in range(len(rows) - 1):
+        for bottom in range(top, len(rows) - 1):
+            # Removing the hook shifts rows[top+1..bottom] up and left by one box
+            # and leaves this many boxes in its bottom row.
+            rest = rows[top] + (bottom - top) - rim_size
+            if rows[bottom + 1] <= rest < rows[bottom]:
+                shifted = [r - 1 for r in rows[top + 1:bottom + 1]]
+                return part_clip(rows[:top] + shifted + [rest] + rows[bottom + 1:]), bottom - top + 1
+    return None
 
 
 
-- 
2.43.0


From f5e729281c37d1889437eaa2a4b5e8fe3778b7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:46 +0000
Subject: [PATCH 03/25] fix: clone() of isotropic and orthogonal Grassmannians
 returns the same space

---
 schubertpy/abstract_grassmannian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/schubertpy/abstract_grassmannian.py b/schubertpy/abstract_grassmannian.py
index 7076e8f..1253600 100644
--- a/schubertpy/abstract_grassmannian.py
+++ b/schubertpy/abstract_grassmannian.py
@@ -100,7 +100,8 @@ class AbstractGrassmannian(ABC):
 
     
     def clone(self):
-        return self.__class__(self._n-self._k, self._n)
+        m, n = self.get_type_data()[4:6]
+        return self.__class__(m, n)
         
 
     def pieri(self, i: int, lc: Union[sp.Expr, LinearCombination, str]) -> LinearCombination:
-- 
2.43.0


From cc04642ba98918f88dc999ba1f1bd64e9e07f089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:21 +0000
Subject: [PATCH 04/25] fix: part2index, type_swap, part2pair and pair2part
 accept the documented list form

---
 schubertpy/grassmannian.py            | 5 ++---
 schubertpy/isotropic_grassmannian.py  | 5 ++---
 schubertpy/orthogonal_grassmannian.py | 7 ++-----
 3 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/schubertpy/grassmannian.py b/schubertpy/grassmannian.py
index d37aa7d..ebaf871 100644
--- a/schubertpy/grassmannian.py
+++ b/schubertpy/grassmannian.py
@@ -15,7 +15,6 @@ from .qcalc import (
     part_clip,
     pieri_itrA,
     part_star,
-    part2index,
     part2indexA_inner,
     index2partA_inner,
     dualize_index_inner,
@@ -101,7 +100,7 @@ class Grassmannian(AbstractGrassmannian):
         
     def part2index(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            return part2index(Schur(lc).symbol())
+            return self.part2index(Schur(lc).symbol())
         return apply_lc(lambda lam: part2indexA_inner(lam, self._k, self._n), lc)
         
 
@@ -120,7 +119,7 @@ class Grassmannian(AbstractGrassmannian):
     
     def type_swap(self, lc: Union[sp.Expr, LinearCombination, str, List[int]], k: int) -> LinearCombination:
         if isinstance(lc, list):
-            return self.type_swap(Schur(lc).symbol())
+            return self.type_swap(Schur(lc).symbol(), k)
         return LinearCombination(lc)
 
     def schub_type(self, lam: Union[Schur, List[int]]) -> int:
diff --git a/schubertpy/isotropic_grassmannian.py b/schubertpy/isotropic_grassmannian.py
index 93a30c0..971ddf2 100644
--- a/schubertpy/isotropic_grassmannian.py
+++ b/schubertpy/isotropic_grassmannian.py
@@ -11,7 +11,6 @@ from .qcalc import (
     part2pair_inner,
     pair2part_inner,
     part2indexC_inner,
-    part2index,
     index2partC_inner,
     dualize_index_inner,
     pieri_set,
@@ -114,7 +113,7 @@ class IsotropicGrassmannian(AbstractGrassmannian):
         
     def part2index(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            return part2index(Schur(lc).symbol())
+            return self.part2index(Schur(lc).symbol())
         return apply_lc(lambda lam: part2indexC_inner(lam, self._k, self._n), lc)
         
 
@@ -133,7 +132,7 @@ class IsotropicGrassmannian(AbstractGrassmannian):
     
     def type_swap(self, lc: Union[sp.Expr, LinearCombination, str, List[int]], k: int) -> LinearCombination:
         if isinstance(lc, list):
-            return self.type_swap(Schur(lc).symbol())
+            return self.type_swap(Schur(lc).symbol(), k)
         return LinearCombination(lc)
 
     def schub_type(self, lam: Union[Schur, List[int]]) -> int:
diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index 6529ef4..bfe6f95 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -13,7 +13,6 @@ from .qcalc import (
     pair2part_inner,
     part2indexB_inner,
     part2indexD_inner,
-    part2index,
     index2partB_inner,
     index2partD_inner,
     dualize_index_inner,
@@ -139,7 +138,6 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
 
     def part2pair(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            lc = Schur(lc).symbol()
             return part2pair_inner(lc, self._k)
         else:
             lc = LinearCombination(lc)
@@ -148,7 +146,6 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
 
     def pair2part(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list) and len(lc) == 2:
-            lc = Schur(lc).symbol()
             return pair2part_inner(lc)
         else:
             lc = LinearCombination(lc)
@@ -156,7 +153,7 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
         
     def part2index(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            return part2index(Schur(lc).symbol())
+            return self.part2index(Schur(lc).symbol())
         
         lc = LinearCombination(lc)
         f = part2indexB_inner
@@ -188,7 +185,7 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
     
     def type_swap(self, lc: Union[sp.Expr, LinearCombination, str, List[int]], k: int) -> LinearCombination:
         if isinstance(lc, list):
-            return self.type_swap(Schur(lc).symbol())
+            return self.type_swap(Schur(lc).symbol(), k)
         
         if self._type == "D":
             return apply_lc(lambda lam: type_swap_inner(lam, self._k), lc)
-- 
2.43.0


From 78c00494b68a19f8c2c742e6d2c85463d0e0d69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:24 +0000
Subject: [PATCH 05/25] fix: pieri on a list returns a LinearCombination in
 types B and C too

---
 schubertpy/isotropic_grassmannian.py  | 2 +-
 schubertpy/orthogonal_grassmannian.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/schubertpy/isotropic_grassmannian.py b/schubertpy/isotropic_grassmannian.py
index 971ddf2..b09aad8 100644
--- a/schubertpy/isotropic_grassmannian.py
+++ b/schubertpy/isotropic_grassmannian.py
@@ -149,7 +149,7 @@ class IsotropicGrassmannian(AbstractGrassmannian):
         result = sp.Integer(0)
         for x in pieri_set(i, lam, k, n, 0):
             result += 2**count_comps(lam, x, True, k, 0) * Schur(x)
-        return result
+        return LinearCombination(result)
 
 
     def qpieriC_inner(self, i: int, lam: List[int], k: int, n: int) -> LinearCombination:
diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index bfe6f95..06a23fa 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -217,7 +217,7 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
         pset = pieri_set(p, lam, k, n, 0)
         for mu in pset:
             result += 2**(count_comps(lam, mu, False, k, 0) - b) * Schur(mu)
-        return result
+        return LinearCombination(result)
 
     def qpieriB_inner(self, p: int, lam: List[int], k: int, n: int) -> LinearCombination:
         q = sp.Symbol('q')
-- 
2.43.0


From 714adbff25498d40160fdb7a8a751b3106cf4bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:43 +0000
Subject: [PATCH 06/25] fix: expand the results of qpieri and act/qact, as the
 other operations do

---
 schubertpy/abstract_grassmannian.py  | 2 +-
 schubertpy/grassmannian.py           | 2 +-
 schubertpy/isotropic_grassmannian.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/schubertpy/abstract_grassmannian.py b/schubertpy/abstract_grassmannian.py
index 1253600..02c008f 100644
--- a/schubertpy/abstract_grassmannian.py
+++ b/schubertpy/abstract_grassmannian.py
@@ -199,7 +199,7 @@ class AbstractGrassmannian(ABC):
         
         # If there are no variables, multiply expc by lc and return
         if len(vars) == 0:
-            return LinearCombination(expc * lc)
+            return LinearCombination(sp.expand((expc * lc).expr))
 
         v = list(vars)[0]
         
diff --git a/schubertpy/grassmannian.py b/schubertpy/grassmannian.py
index ebaf871..86f7642 100644
--- a/schubertpy/grassmannian.py
+++ b/schubertpy/grassmannian.py
@@ -161,7 +161,7 @@ class Grassmannian(AbstractGrassmannian):
             z = apply_lc(lambda x: part_star(x, k - 1), self.pieriA_inner(i - 1, lab, k - 1, n))
             if isinstance(z, sp.Number):
                 z = LinearCombination(z)
-            res += q * sp.expand(z.expr)
+            res += sp.expand(q * z.expr)
         return LinearCombination(res)
     
     def qmult_rh(
diff --git a/schubertpy/isotropic_grassmannian.py b/schubertpy/isotropic_grassmannian.py
index b09aad8..21b6133 100644
--- a/schubertpy/isotropic_grassmannian.py
+++ b/schubertpy/isotropic_grassmannian.py
@@ -156,4 +156,4 @@ class IsotropicGrassmannian(AbstractGrassmannian):
         q = sp.Symbol('q')
         inner_result = self.pieriC_inner(i, lam, k, n)
         second_term = q/2 * apply_lc(lambda x: part_star(x, n+k+1), self.pieriC_inner(i, lam, k, n+1))
-        return inner_result + second_term
+        return LinearCombination(sp.expand((inner_result + second_term).expr))
-- 
2.43.0


From e1f0d0d8c32709f7f01f756dd6fc655d62183bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:48 +0000
Subject: [PATCH 07/25] fix: treat q1 and q2 as scalars when multiplying, so
 OG(n,2n+2) products can be multiplied again

---
 schubertpy/abstract_grassmannian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schubertpy/abstract_grassmannian.py b/schubertpy/abstract_grassmannian.py
index 02c008f..3a849e8 100644
--- a/schubertpy/abstract_grassmannian.py
+++ b/schubertpy/abstract_grassmannian.py
@@ -193,8 +193,8 @@ class AbstractGrassmannian(ABC):
         # print("act_lc")
         lc = LinearCombination(lc)
 
-        q = sp.Symbol('q')
-        vars = expc.free_symbols - {q}
+        q, q1, q2 = sp.symbols('q q1 q2')
+        vars = expc.free_symbols - {q, q1, q2}
         vars = sorted(vars, key=lambda x: str(x))
         
         # If there are no variables, multiply expc by lc and return
-- 
2.43.0


From 1886b94afb4fe7ea75439047d93402066c4bba92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 08/25] fix: Gr(0,n) has the class S[] and the point class of
 Gr(n,n) is S[]

---
 schubertpy/grassmannian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schubertpy/grassmannian.py b/schubertpy/grassmannian.py
index 86f7642..43f3884 100644
--- a/schubertpy/grassmannian.py
+++ b/schubertpy/grassmannian.py
@@ -66,7 +66,7 @@ class Grassmannian(AbstractGrassmannian):
             raise ValueError("Must set type with IG or OG or set_type functions.")
 
         mu = [self._k] * (self._n - self._k)
-        partitions = part_gen(mu)
+        partitions = part_gen(mu) if mu else [[]]
         partitions.sort()
         res = [Schur(lam) for lam in partitions]
         res = unique_schur_list(res)
@@ -89,7 +89,7 @@ class Grassmannian(AbstractGrassmannian):
 
         if self._k > 0:
             return Schur((([self._k] * (self._n - self._k))))
-        return []
+        return Schur([])
 
     def part2pair(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         raise Exception("Only types B,C,D.")
-- 
2.43.0


From 0d032e9b94cf97d794b5633dbb00cf3dffad13ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:53 +0000
Subject: [PATCH 09/25] fix: to_polinomial_str no longer drops trailing zeros
 from the Schur class itself

---
 schubertpy/utils/mix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/utils/mix.py b/schubertpy/utils/mix.py
index bf7c1ea..4aa54bd 100644
--- a/schubertpy/utils/mix.py
+++ b/schubertpy/utils/mix.py
@@ -65,7 +65,7 @@ def __drop_trailing_zeros__(x):
     return x
 
 def __make_partition__(x):
-    mu = __drop_trailing_zeros__(x)
+    mu = __drop_trailing_zeros__(list(x))
     integers = map(lambda i: isinstance(i, int), mu)
     if not all(integers):
         raise ValueError("invalid integer partition.")
-- 
2.43.0


From db26e5f1fbf0319fd5aaeeb1788aa767d372e7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:20 +0000
Subject: [PATCH 10/25] fix: arithmetic with scalars and with the zero
 LinearCombination stays closed

---
 schubertpy/lc.py    | 4 ++--
 schubertpy/schur.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 00c56d4..7c1de3d 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -70,7 +70,7 @@ class LinearCombination(object):
         # Handle subtraction when LinearCombination is on the left
         if isinstance(other, (int, float, sp.Symbol, sp.Expr)):
             # Assuming you have a method to create a new LinearCombination from a scalar
-            return self.expr - other
+            return LinearCombination(self.expr - other)
         if isinstance(other, LinearCombination):
             return LinearCombination(self.expr - other.expr)
         else:
@@ -79,7 +79,7 @@ class LinearCombination(object):
     def __rsub__(self, other):
         # Handle subtraction when LinearCombination is on the right
         if isinstance(other, (int, float, sp.Symbol, sp.Expr)):
-            return other - self.expr
+            return LinearCombination(other - self.expr)
         if isinstance(other, LinearCombination):
             return LinearCombination(other.expr - self.expr)
         else:
diff --git a/schubertpy/schur.py b/schubertpy/schur.py
index 6ad8275..4ca6714 100644
--- a/schubertpy/schur.py
+++ b/schubertpy/schur.py
@@ -47,7 +47,7 @@ class Schur(object):
             return self.symbol() + other.symbol()
         if isinstance(other, (int, float, sp.Expr, sp.Number)):
             return self.symbol() + other
-        if other.expr and isinstance(other.expr, sp.Expr):
+        if isinstance(other.expr, sp.Expr):
             return self.symbol() + other.expr
         raise ValueError(f"Invalid type for addition: {type(other)}")
     
@@ -58,7 +58,7 @@ class Schur(object):
             return self.symbol() * other.symbol()
         if isinstance(other, (int, float, sp.Expr, sp.Number)):
             return self.symbol() * other
-        if other.expr and isinstance(other.expr, sp.Expr):
+        if isinstance(other.expr, sp.Expr):
             return self.symbol() * other.expr
         raise ValueError(f"Invalid type for addition: {type(other)}")
     
@@ -69,7 +69,7 @@ class Schur(object):
             return self.symbol() ** other.symbol()
         if isinstance(other, (int, float, sp.Expr, sp.Number)):
             return self.symbol() ** other
-        if other.expr and isinstance(other.expr, sp.Expr):
+        if isinstance(other.expr, sp.Expr):
             return self.symbol() ** other.expr
         raise ValueError(f"Invalid type for addition: {type(other)}")
 
-- 
2.43.0


From a52db4030e074b30146c93028956669a182e0478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 11/25] fix: schur_expansion looks at each term, keeps
 fractions and honours include_q for one term

---
 schubertpy/lc.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 7c1de3d..511276d 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -275,7 +275,7 @@ class LinearCombination(object):
             expression type is not supported for Schur expansion.
         """
         if isinstance(expr, sp.Number):
-            return (int(expr),[])
+            return (int(expr) if expr.is_Integer else expr, [])
         if isSchur(expr):
             return (1, toSchur(str(expr)).partition())
         if isinstance(expr, sp.Mul):
@@ -283,10 +283,10 @@ class LinearCombination(object):
                 raise ValueError(f"Cannot convert a product with multiple Schur functions to schur_expansion. Please expand the expression first: {self.expr}")
             return(self. _cutoff_Schur(expr))
             
-        if isinstance(self.expr, sp.Add):
+        if isinstance(expr, sp.Add):
             # Handle the case where the expression is a sum of terms
             res = []
-            for term in self.expr.args:
+            for term in expr.args:
                 if not include_q and str(term).__contains__('q'):
                     continue
                 res.append(self._schur_expansion(term))
@@ -311,6 +311,8 @@ class LinearCombination(object):
         representing the partition of a Schur function, or raises a ValueError if the
         expression cannot be expanded into Schur components.
         """
+        if not include_q and not self.expr.is_Add and str(self.expr).__contains__('q'):
+            return []
         return self._schur_expansion(self.expr, include_q)
 
     def draw_ascii_partition(self, include_q=True):
-- 
2.43.0


From 1db200efa1facba5e744d6daf0e8914ca7647923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:44 +0000
Subject: [PATCH 12/25] fix: draw_ascii_partition draws combinations that
 contain the empty partition

---
 schubertpy/lc.py        | 4 ++--
 schubertpy/utils/mix.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 511276d..56c2abe 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -335,14 +335,14 @@ class LinearCombination(object):
         
         # Prepare the ASCII art lines
         ascii_lines = []
-        max_height = 0
+        max_height = 1 if expansion else 0
         
         for coeff, part in expansion:
             max_height = max(max_height, len(part))
         
         part_count = 0
         for coeff, part in expansion:
-            part_ascii = embed_partition(part, max(part), max_height)
+            part_ascii = embed_partition(part, max(part, default=0), max_height)
             coeff_str = ""
             if coeff != 1:
                 coeff_str = f"{coeff}*"
diff --git a/schubertpy/utils/mix.py b/schubertpy/utils/mix.py
index 4aa54bd..f77303b 100644
--- a/schubertpy/utils/mix.py
+++ b/schubertpy/utils/mix.py
@@ -32,7 +32,7 @@ def embed_str(s: str, height: int) -> List[str]:
 
 def embed_partition(partition: List[int], width, height: int) -> List[str]:
     res = partition_to_ascii(partition)
-    if width*2 > len(res[0]):
+    if res and width*2 > len(res[0]):
         for i, row in enumerate(res):
             res[i] = row + "  "*(width - int(len(row)/2))
     if height > len(res):
-- 
2.43.0


From 10533c3c19fa37f80c92d078c1ab9bf8142441aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:47 +0000
Subject: [PATCH 13/25] fix: schub_type accepts Schur objects

---
 schubertpy/orthogonal_grassmannian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index 06a23fa..2b2374d 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -193,8 +193,10 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
         return LinearCombination(lc)
 
     def schub_type(self, lam: Union[Schur, List[int]]) -> int:
-        if self._type != "D" or not (isinstance(lam, list) or not isinstance(lam, Schur)):
+        if self._type != "D":
             raise ValueError("No type defined.")
+        if isinstance(lam, Schur):
+            lam = lam.partition()
         
         if self._k not in lam:
             return 0
-- 
2.43.0


From a2bbd5502dd66f0f4df941919a59b4f9b2a5cfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:50 +0000
Subject: [PATCH 14/25] fix: schur_to_sage_schur converts the partition, not
 the bound method

---
 schubertsage/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertsage/conversion.py b/schubertsage/conversion.py
index 07d0499..d1537d7 100644
--- a/schubertsage/conversion.py
+++ b/schubertsage/conversion.py
@@ -24,4 +24,4 @@ def sage_schur_to_schur(sage_schur: SymmetricFunctionAlgebra_schur) -> Schur:
     return Schur(partition)
 
 def schur_to_sage_schur(schur) -> SymmetricFunctionAlgebra_schur:
-    return S(schur.partition)
\ No newline at end of file
+    return S(schur.partition())
\ No newline at end of file
-- 
2.43.0


From 5097a94cb55672cb26aff4d63c9fe82f6610d8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:44 +0000
Subject: [PATCH 15/25] fix: read S[2, 1] (the spacing Maple and Python use)
 like S[2,1]

---
 schubertpy/lc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 56c2abe..b2326bb 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -1,3 +1,4 @@
+import re
 from typing import *
 import sympy as sp
 
@@ -17,6 +18,7 @@ class LinearCombination(object):
             return
         if isinstance(expr, str):
             expr = expr.replace('^', '**')
+            expr = re.sub(r'\s*,\s*', ',', expr)
             expr = expr.translate(ftable)
             self.expr = sp.parse_expr(expr)
             return
-- 
2.43.0


From 4bd2c8028dc665afab4eaac9f4b910f2f2091887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:28 +0000
Subject: [PATCH 16/25] fix: keep the signs in qmult_rh integers so that its
 coefficients stay exact

---
 schubertpy/grassmannian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/grassmannian.py b/schubertpy/grassmannian.py
index 43f3884..039d727 100644
--- a/schubertpy/grassmannian.py
+++ b/schubertpy/grassmannian.py
@@ -204,7 +204,7 @@ class Grassmannian(AbstractGrassmannian):
             # print("let's remove the rim hooks with rim_size = ", rim_size, " and acceptable_grid = ", acceptable_grid)
             x, q_num, height = p.remove_rim_hooks(rim_size=rim_size, acceptable_grid=acceptable_grid)
 
-            sign = (-1)**(height-kp*q_num)
+            sign = -1 if (height-kp*q_num) % 2 else 1
             # sign = (-1)**(n - kp - height)
 
             # print("removed rim hooks:", x, "\tq_num = ", q_num, "\theight = ", height, "\tsign = ", sign)
-- 
2.43.0


From d7efdb9ab85821fa2fb0b4732875aa3867e1843b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:51 +0000
Subject: [PATCH 17/25] fix: allow spaces next to the brackets of S[ 2, 1 ] as
 well

---
 schubertpy/lc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index b2326bb..5255b08 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -18,7 +18,7 @@ class LinearCombination(object):
             return
         if isinstance(expr, str):
             expr = expr.replace('^', '**')
-            expr = re.sub(r'\s*,\s*', ',', expr)
+            expr = re.sub(r'(?<=[\[,])\s+|\s+(?=[,\]])', '', expr)
             expr = expr.translate(ftable)
             self.expr = sp.parse_expr(expr)
             return
-- 
2.43.0


From bc0ec521bd7dcca2706262a99e9c0344c152bac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:13 +0000
Subject: [PATCH 18/25] fix: schur_expansion refuses products with powers or
 sums of classes

---
 schubertpy/lc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 5255b08..87ca056 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -244,6 +244,8 @@ class LinearCombination(object):
             ss = [arg for arg in expr.args if isSchur(arg)]
             if len(ss) <=0:
                 raise ValueError(f"Schur function absent or not in order 1: {expr}")
+            if any(isSchur(sym) for sym in new_expr.free_symbols):
+                raise ValueError(f"Product or power of Schur functions, please expand the expression first: {expr}")
             s = ss[0]
             return (LinearCombination(new_expr), Schur(s).partition())
         raise ValueError(f"Invalid type for cutoff Schur: {expr}")
-- 
2.43.0


From 6a6a57101cfc42bc85db11b1a48994dafad0baf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:32 +0000
Subject: [PATCH 19/25] fix: compare result files that write powers with ^ or
 S[2, 1], as the library prints and reads them

---
 schubertpy/csv_bijection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schubertpy/csv_bijection.py b/schubertpy/csv_bijection.py
index 48c88c3..36b6d80 100644
--- a/schubertpy/csv_bijection.py
+++ b/schubertpy/csv_bijection.py
@@ -1,5 +1,6 @@
 import csv
 import sympy as sp
+from .lc import LinearCombination
 from .utils.const import *
 
 def _read_csv_transformed(filename):
@@ -10,8 +11,7 @@ def _read_csv_transformed(filename):
             if not any(row):
                 continue
             if len(row) >= 3:
-                col3 = encode(row[2])
-                col3 = sp.parse_expr(col3)
+                col3 = LinearCombination(row[2]).expr
                 col3 = sp.expand(col3).simplify()
                 col3 = decode(str(col3))
                 transformed_row = (row[0], row[1], col3)
-- 
2.43.0


From 695b34b50c9843da1e059a9ace37e737c2eee104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:34 +0000
Subject: [PATCH 20/25] fix: LinearCombination +, - and * accept a Schur class
 on either side

---
 schubertpy/lc.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 87ca056..ae36fbb 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -40,6 +40,8 @@ class LinearCombination(object):
         return self.__str__()
     
     def __add__(self, other):
+        if isinstance(other, Schur):
+            return LinearCombination(self.expr + other.symbol())
         if isinstance(other, LinearCombination):
             return LinearCombination(self.expr + other.expr)
         if isinstance(other, (int, float, sp.Expr, sp.Number)):
@@ -49,6 +51,8 @@ class LinearCombination(object):
     __radd__ = __add__
 
     def __mul__(self, other):
+        if isinstance(other, Schur):
+            return LinearCombination(self.expr * other.symbol())
         # Handle scalar multiplication
         if isinstance(other, LinearCombination):
             return LinearCombination(self.expr * other.expr)
@@ -69,6 +73,8 @@ class LinearCombination(object):
     
 
     def __sub__(self, other):
+        if isinstance(other, Schur):
+            return LinearCombination(self.expr - other.symbol())
         # Handle subtraction when LinearCombination is on the left
         if isinstance(other, (int, float, sp.Symbol, sp.Expr)):
             # Assuming you have a method to create a new LinearCombination from a scalar
@@ -79,6 +85,8 @@ class LinearCombination(object):
             raise TypeError(f"Unsupported operand type(s) for -: '{type(self)}' and '{type(other)}'")
     
     def __rsub__(self, other):
+        if isinstance(other, Schur):
+            return LinearCombination(other.symbol() - self.expr)
         # Handle subtraction when LinearCombination is on the right
         if isinstance(other, (int, float, sp.Symbol, sp.Expr)):
             return LinearCombination(other - self.expr)
-- 
2.43.0


From 9f2de899d0d35b79b0ce52a19ccc8268c4375c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:05 +0000
Subject: [PATCH 21/25] fix: refuse lists that are not partitions in pieri,
 part2pair, part2index, type_swap and schub_type

---
 schubertpy/abstract_grassmannian.py   | 2 +-
 schubertpy/grassmannian.py            | 4 ++--
 schubertpy/isotropic_grassmannian.py  | 6 +++---
 schubertpy/orthogonal_grassmannian.py | 9 ++++++---
 4 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/schubertpy/abstract_grassmannian.py b/schubertpy/abstract_grassmannian.py
index 3a849e8..1fafb16 100644
--- a/schubertpy/abstract_grassmannian.py
+++ b/schubertpy/abstract_grassmannian.py
@@ -106,7 +106,7 @@ class AbstractGrassmannian(ABC):
 
     def pieri(self, i: int, lc: Union[sp.Expr, LinearCombination, str]) -> LinearCombination:
         if isinstance(lc, list):
-            return self._pieri(i, lc, self._k, self._n)
+            return self.pieri(i, LinearCombination(lc))
         else:
             return apply_lc(lambda p: self._pieri(i, p, self._k, self._n), lc)
 
diff --git a/schubertpy/grassmannian.py b/schubertpy/grassmannian.py
index 039d727..1908bbb 100644
--- a/schubertpy/grassmannian.py
+++ b/schubertpy/grassmannian.py
@@ -100,7 +100,7 @@ class Grassmannian(AbstractGrassmannian):
         
     def part2index(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            return self.part2index(Schur(lc).symbol())
+            return self.part2index(LinearCombination(lc))
         return apply_lc(lambda lam: part2indexA_inner(lam, self._k, self._n), lc)
         
 
@@ -119,7 +119,7 @@ class Grassmannian(AbstractGrassmannian):
     
     def type_swap(self, lc: Union[sp.Expr, LinearCombination, str, List[int]], k: int) -> LinearCombination:
         if isinstance(lc, list):
-            return self.type_swap(Schur(lc).symbol(), k)
+            return self.type_swap(LinearCombination(lc), k)
         return LinearCombination(lc)
 
     def schub_type(self, lam: Union[Schur, List[int]]) -> int:
diff --git a/schubertpy/isotropic_grassmannian.py b/schubertpy/isotropic_grassmannian.py
index 21b6133..4d252bb 100644
--- a/schubertpy/isotropic_grassmannian.py
+++ b/schubertpy/isotropic_grassmannian.py
@@ -99,7 +99,7 @@ class IsotropicGrassmannian(AbstractGrassmannian):
 
     def part2pair(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            return part2pair_inner(lc, self._k)
+            return self.part2pair(LinearCombination(lc))
         else:
             return apply_lc(lambda lam: part2pair_inner(lam, self._k), lc)
     
@@ -113,7 +113,7 @@ class IsotropicGrassmannian(AbstractGrassmannian):
         
     def part2index(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            return self.part2index(Schur(lc).symbol())
+            return self.part2index(LinearCombination(lc))
         return apply_lc(lambda lam: part2indexC_inner(lam, self._k, self._n), lc)
         
 
@@ -132,7 +132,7 @@ class IsotropicGrassmannian(AbstractGrassmannian):
     
     def type_swap(self, lc: Union[sp.Expr, LinearCombination, str, List[int]], k: int) -> LinearCombination:
         if isinstance(lc, list):
-            return self.type_swap(Schur(lc).symbol(), k)
+            return self.type_swap(LinearCombination(lc), k)
         return LinearCombination(lc)
 
     def schub_type(self, lam: Union[Schur, List[int]]) -> int:
diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index 2b2374d..8503a5f 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -2,6 +2,7 @@ from .abstract_grassmannian import AbstractGrassmannian
 from typing import Callable, List, Union
 from .schur import Schur
 from .lc import LinearCombination
+from .partition import is_valid_part
 from .utils.hash import hashable_lru_cache_method
 import sympy as sp
 
@@ -138,7 +139,7 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
 
     def part2pair(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            return part2pair_inner(lc, self._k)
+            return self.part2pair(LinearCombination(lc))
         else:
             lc = LinearCombination(lc)
             return apply_lc(lambda lam: part2pair_inner(lam, self._k), lc)
@@ -153,7 +154,7 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
         
     def part2index(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            return self.part2index(Schur(lc).symbol())
+            return self.part2index(LinearCombination(lc))
         
         lc = LinearCombination(lc)
         f = part2indexB_inner
@@ -185,7 +186,7 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
     
     def type_swap(self, lc: Union[sp.Expr, LinearCombination, str, List[int]], k: int) -> LinearCombination:
         if isinstance(lc, list):
-            return self.type_swap(Schur(lc).symbol(), k)
+            return self.type_swap(LinearCombination(lc), k)
         
         if self._type == "D":
             return apply_lc(lambda lam: type_swap_inner(lam, self._k), lc)
@@ -197,6 +198,8 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
             raise ValueError("No type defined.")
         if isinstance(lam, Schur):
             lam = lam.partition()
+        if not is_valid_part(list(lam)):
+            raise ValueError("Invalid partition")
         
         if self._k not in lam:
             return 0
-- 
2.43.0


From 858d9cb3ef8b785362fcba5816cf03eb92d99741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 22/25] fix: list the complement partition of OG(n,2n+2) in
 decreasing order

The set difference is iterated in hash order, which is not sorted from n=9
on, so qpieri in OG(9,20) and larger failed or used a wrong partition.
---
 schubertpy/orthogonal_grassmannian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index 8503a5f..1e85b7d 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -300,7 +300,7 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
 
 
     def _toSchurFromIntnMu(self, _intn: set, _mu: List[int]) -> LinearCombination:
-        sch = Schur((list(_intn - set(_mu))[::-1]))
+        sch = Schur(sorted(_intn - set(_mu), reverse=True))
         return LinearCombination(sch.symbol())
 
     @hashable_lru_cache_method(maxsize=None)
-- 
2.43.0


From 7e05bd6b8981f58e3858756389b408476039381b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:28 +0000
Subject: [PATCH 23/25] fix: Schur built from a tuple is the same class as from
 the list

The tuple was kept as the partition, so that Schur((2,1)) printed as S(2,1),
compared unequal to Schur([2,1]) and could not be used in any operation.
---
 schubertpy/schur.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/schur.py b/schubertpy/schur.py
index 4ca6714..cc51f64 100644
--- a/schubertpy/schur.py
+++ b/schubertpy/schur.py
@@ -12,7 +12,7 @@ class Schur(object):
     def __init__(self, p: Union[List[int], sp.Expr, str, 'Schur']):
         # Set self.p to p or [] if p is None
         if isinstance(p, (list, tuple)):
-            self.p = p if p is not None else []
+            self.p = list(p)
             return
         if isinstance(p, Schur):
             self.p = p.p
-- 
2.43.0


From f488b04e8098351861fc9ff3d9beb82d37d8c58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 24/25] fix: answer 0 for a Schur polynomial with many more
 parts than variables without allocating the table

---
 schubertpy/utils/mix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/schubertpy/utils/mix.py b/schubertpy/utils/mix.py
index f77303b..6b21de7 100644
--- a/schubertpy/utils/mix.py
+++ b/schubertpy/utils/mix.py
@@ -125,5 +125,7 @@ def SchurPol(n, kappa):
         if k == 1:
             S[__N__(kappa_, nu)-1, m-1] = s
         return s
+    if len(kappa_) > n:
+        return Poly(0, *variables, domain='ZZ')
     S = np.full((__N__(kappa_,kappa_), n), None)
     return sch(S.copy(), n, 1, kappa_)
\ No newline at end of file
-- 
2.43.0


From ee10e99d9ac2c6a0608a931284b4c665020eb4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 25/25] fix: count only non-empty rows in skew_partition_height
 and ignore trailing zeros

---
 schubertpy/partition.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/schubertpy/partition.py b/schubertpy/partition.py
index 90aac87..f05adcb 100644
--- a/schubertpy/partition.py
+++ b/schubertpy/partition.py
@@ -166,8 +166,9 @@ def skew_partition_height(lambda_partition: List[int], mu_partition: List[int])
     2
     """
 
-    if len(lambda_partition) == 0:
-        return len(mu_partition)
+    # Trailing zeros are not rows
+    lambda_partition = part_clip(lambda_partition)
+    mu_partition = part_clip(mu_partition)
 
     # Validation: Ensure lambda is contained within mu
     for i in range(len(lambda_partition)):
-- 
2.43.0

