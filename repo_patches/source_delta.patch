From 9cc5c287f42f556f048bf03fca50ed5c677edf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:51 +0000
Subject: [PATCH 01/54] fix: crop the compared affine function to each piece in
 Affine.compare_with

Where only self was defined, the whole uncropped (and aliased) self was
appended, so min_with/max_with returned overlapping, non-optimal pieces and
mutated their input.
---
 blueprint/src/python/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 7553b46..ad68f85 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -246,7 +246,7 @@ class Affine:
                 x = crits[i]
                 interval = Interval(x, x, True, True)
                 if domain is None or domain.contains(x):
-                    p = self if self.domain.contains(x) else None
+                    p = compare_f(None, self, interval) if self.domain.contains(x) else None
                     for f in f2:
                         if f.domain.contains(x):
                             p = compare_f(p, f, interval)
@@ -258,7 +258,7 @@ class Affine:
             # Consider the interval (crits[i], crits[i + 1])
             interval = Interval(crits[i], crits[i + 1], False, False)
             test_x = interval.midpoint()
-            p = self if self.domain.contains(test_x) else None
+            p = compare_f(None, self, interval) if self.domain.contains(test_x) else None
             for f in f2:
                 if f.domain.contains(test_x):
                     p = compare_f(p, f, interval)
-- 
2.43.0


From e4fbdeeb67e2dd123c7928c289aff2e418365d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:51 +0000
Subject: [PATCH 02/54] fix: RationalFunction.__sub__ called a method that does
 not exist

---
 blueprint/src/python/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index ad68f85..24e3d04 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -782,7 +782,7 @@ class RationalFunction:
         return self.add(other)
     
     def __sub__(self, other):
-        return self.sub(other)
+        return self.subtract(other)
 
     def __mul__(self, other):
         return self.mul(other)
-- 
2.43.0


From 8047d182a6ef8cd313e1f45fb2264c9d24590f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:51 +0000
Subject: [PATCH 03/54] fix: RationalFunction.div multiplied by a numeric
 divisor

---
 blueprint/src/python/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 24e3d04..b768ba1 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -941,8 +941,8 @@ class RationalFunction:
     def div(self, other):
         r = RationalFunction([])
         if isinstance(other, numbers.Number):
-            r.num = self.num * other
-            r.den = self.den
+            r.num = self.num
+            r.den = self.den * other
             return r
         if isinstance(other, RationalFunction):
             r.num = self.num * other.den
-- 
2.43.0


From b4eab2da51858513384d3fa14854a8fe77081965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:51 +0000
Subject: [PATCH 04/54] fix: RationalFunction.add returned an exception instead
 of raising it

---
 blueprint/src/python/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index b768ba1..5d76708 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -911,7 +911,7 @@ class RationalFunction:
             r.num = self.num * other.den + self.den * other.num
             r.den = self.den * other.den
             return r
-        return NotImplementedError()
+        raise NotImplementedError()
     
     def subtract(self, other):
         r = RationalFunction([])
-- 
2.43.0


From 6b7b761e2492cdd9c321f5936d4985364ea439b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:51 +0000
Subject: [PATCH 05/54] fix: index error in Region.project of an intersection
 with one projection

---
 blueprint/src/python/region.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/region.py b/blueprint/src/python/region.py
index a7a3ac1..a638ab2 100644
--- a/blueprint/src/python/region.py
+++ b/blueprint/src/python/region.py
@@ -236,7 +236,7 @@ class Region:
             ps = [c.project(dims) for c in self.child]
             ps = [p for p in ps if p is not None]
             if len(ps) == 0: return None
-            if len(ps) == 1: return ps[1]
+            if len(ps) == 1: return ps[0]
             return Region(Region_Type.INTERSECT, ps)
         
         # In particular, complements are not yet supported. 
-- 
2.43.0


From 26e79894020c4f110c10e052af1133f24b9a364f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:51 +0000
Subject: [PATCH 06/54] fix: Region.is_subset_of passed regions to
 Polytope.is_covered_by

---
 blueprint/src/python/region.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/region.py b/blueprint/src/python/region.py
index a638ab2..811b194 100644
--- a/blueprint/src/python/region.py
+++ b/blueprint/src/python/region.py
@@ -181,7 +181,8 @@ class Region:
             if region.region_type == Region_Type.POLYTOPE:
                 return self.child.is_subset_of(region.child)
             elif region.region_type == Region_Type.UNION or region.region_type == Region_Type.DISJOINT_UNION:
-                return self.child.is_covered_by(region.child)
+                if all(r.region_type == Region_Type.POLYTOPE for r in region.child):
+                    return self.child.is_covered_by([r.child for r in region.child])
             elif region.region_type == Region_Type.INTERSECT:
                 return all(self.is_subset_of(p) for p in region.child)
         
-- 
2.43.0


From 93b43b7c927d689c6659071e0de755c911de5c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:51 +0000
Subject: [PATCH 07/54] fix: Region.lift of a complement returned the lift of
 the uncomplemented region

---
 blueprint/src/python/region.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/region.py b/blueprint/src/python/region.py
index 811b194..ae87e39 100644
--- a/blueprint/src/python/region.py
+++ b/blueprint/src/python/region.py
@@ -251,9 +251,21 @@ class Region:
                                     Region_Type.DISJOINT_UNION, Region_Type.INTERSECT, Region_Type.COMPLEMENT}:
             raise NotImplementedError("lifting operation is not implemented for the region_type {self.region_type}.")
         
-        if self.region_type in {Region_Type.POLYTOPE, Region_Type.COMPLEMENT}:
+        if self.region_type == Region_Type.POLYTOPE:
             return Region(Region_Type.POLYTOPE, self.child.lift(var))
         
+        # The complement is taken within the limits of the new dimensions
+        if self.region_type == Region_Type.COMPLEMENT:
+            dim = len(var)
+            box = []
+            for i in range(dim):
+                if isinstance(var[i], int): continue
+                box.append([-var[i][0]] + [1 if j == i else 0 for j in range(dim)])
+                box.append([var[i][1]] + [-1 if j == i else 0 for j in range(dim)])
+            lifted = Region(Region_Type.COMPLEMENT, self.child.lift(var))
+            if len(box) == 0: return lifted
+            return Region.intersect([Region.from_polytope(Polytope(box)), lifted])
+        
         return Region(self.region_type, [c.lift(var) for c in self.child])
 
     # Returns a representation of this region as a disjoint union of convex polytopes.
-- 
2.43.0


From d3d107240863389ec6e68b732244ebedc37f0b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:51 +0000
Subject: [PATCH 08/54] fix: a copied Hypothesis_Set shared its cache with the
 original

---
 blueprint/src/python/hypotheses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/hypotheses.py b/blueprint/src/python/hypotheses.py
index b6bbd84..80a7c6e 100644
--- a/blueprint/src/python/hypotheses.py
+++ b/blueprint/src/python/hypotheses.py
@@ -140,7 +140,7 @@ class Hypothesis_Set:
     # Shallow copy, the hypothesis objects are not cloned
     def __copy__(self):
         copy = Hypothesis_Set(self.hypotheses)
-        copy.data = self.data
+        copy.data = dict(self.data)
         copy.data_valid = self.data_valid
         return copy
 
-- 
2.43.0


From dfe1eb7776db393fbc92a08251881c085d65455a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:51 +0000
Subject: [PATCH 09/54] fix: exponent pair and mu bound hulls shared one cache
 entry and validity flag

Recomputing one hull revalidated the other, stale one, and either function
could be handed the hull of the other type of hypothesis.
---
 blueprint/src/python/exponent_pair.py | 8 ++++----
 blueprint/src/python/hypotheses.py    | 4 +++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index f7c57ec..a85106c 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -141,16 +141,16 @@ def compute_convex_hull(hypothesis_set: Hypothesis_Set) -> ConvexHull:
 
     # Computed convex hull is stored within `hypothesis_list` the first time
     # to avoid repeatedly computing it for multiple values of sigma.
-    if not hypothesis_set.data_valid or "convex_hull" not in hypothesis_set.data:
+    if not hypothesis_set.data_valid or "exponent_pair_convex_hull" not in hypothesis_set.data:
         if len(pairs) < 3:
-            hypothesis_set.data["convex_hull"] = list(pairs)
+            hypothesis_set.data["exponent_pair_convex_hull"] = list(pairs)
         else:
             conv = ConvexHull(np.array([[p.data.k, p.data.l] for p in pairs]))
             vertices = [pairs[v] for v in conv.vertices]
-            hypothesis_set.data["convex_hull"] = vertices
+            hypothesis_set.data["exponent_pair_convex_hull"] = vertices
             hypothesis_set.data_valid = True
 
-    return hypothesis_set.data["convex_hull"]
+    return hypothesis_set.data["exponent_pair_convex_hull"]
 
 def beta_bounds_to_exponent_pairs(
         hypothesis_set: Hypothesis_Set,
diff --git a/blueprint/src/python/hypotheses.py b/blueprint/src/python/hypotheses.py
index 80a7c6e..fe8d157 100644
--- a/blueprint/src/python/hypotheses.py
+++ b/blueprint/src/python/hypotheses.py
@@ -130,8 +130,8 @@ class Hypothesis:
 class Hypothesis_Set:
     def __init__(self, hypotheses=set()):
         self.hypotheses = set()
-        self.add_hypotheses(hypotheses)
         self.data = {}
+        self.add_hypotheses(hypotheses)
         self.data_valid = False  # set to false whenever data needs to be recomputed
 
     def __repr__(self):
@@ -170,6 +170,7 @@ class Hypothesis_Set:
     def add_hypothesis(self, hypothesis, invalidate_data=True):
         self.hypotheses.add(hypothesis)
         if invalidate_data:
+            self.data = {}
             self.data_valid = False
 
     # Adds a set or list of hypotheses, an individual hypothesis, or a Hypothesis_Set
@@ -183,6 +184,7 @@ class Hypothesis_Set:
         else:
             self.hypotheses.update(new_hypotheses)
             if invalidate_data:
+                self.data = {}
                 self.data_valid = False
 
     # return all hypotheses of a given type, and (optionally) up to a given year.  Note: is now returning a Hypothesis_Set rather than a list
-- 
2.43.0


From 454d1c3de02340b20bb840e8ddf8c11a83ebaa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 10/54] fix: Polytope.is_subset_of accepted unbounded polytopes
 as subsets

The objective value of an unbounded linear program was read as 0, so e.g. the
half space tau >= 2 was a subset of every bounded polytope, and intersecting it
with a large value estimate lost the estimate.
---
 blueprint/src/python/polytope.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index 20fbda6..6eac00f 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -666,6 +666,10 @@ class Polytope:
             mat.obj_func = ab
             lp = cdd.LinProg(mat)
             lp.solve()
+            # If there is no optimum then either this polytope is empty, or the
+            # objective is unbounded from below 
+            if lp.status != cdd.LPStatusType.OPTIMAL:
+                return self.is_empty(include_boundary=True)
             if lp.obj_value < 0:
                 return False
         return True
-- 
2.43.0


From e282d88daccb30bad57942a818abdd007bfa2ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 11/54] fix: unbounded polytopes with the same vertices
 compared equal

---
 blueprint/src/python/polytope.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index 6eac00f..5126812 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -165,13 +165,10 @@ class Polytope:
         )
 
     def __eq__(self, other):
-        if self.vertices is None:
-            self.compute_V_rep()
-        if other.vertices is None:
-            other.compute_V_rep()
-        # Construct set of vertices from V representation (as tuples which are hashable)
-        return set(tuple(v) for v in self.vertices) == set(
-            tuple(v) for v in other.vertices
+        return (
+            self.dimension() == other.dimension()
+            and self.is_subset_of(other)
+            and other.is_subset_of(self)
         )
 
     # -------------------------------------------------------------------------
-- 
2.43.0


From 043782de582a1fc32b951e81243b5924cefa7f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 12/54] fix: Polytope.set_minus dropped points when B has
 equality constraints

---
 blueprint/src/python/polytope.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index 5126812..4b344d8 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -543,6 +543,13 @@ class Polytope:
         # rationale)
         A = self.mat.copy()
         B = other.mat
+
+        # If B has a linear constraint then it has no interior, so A \ B is A
+        if any(any(x != 0 for x in B[i]) for i in B.lin_set):
+            if simplify and self.is_empty(include_boundary=False):
+                return []
+            return [copy.copy(self)]
+
         polys = []
         for i in range(B.row_size):
             if i in B.lin_set: continue
-- 
2.43.0


From b31d40cd3f621d7f90140457e7341ffba7feba0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 13/54] fix: Affine2.min_with of equal functions without labels
 raised TypeError

---
 blueprint/src/python/functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 5d76708..f213e2b 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -407,7 +407,9 @@ class Affine2:
             # If two functions are identical, then we add the one with a smaller
             # label. This is to establish a replicable order of functions.
             if all(self.a[i] == f.a[i] for i in range(len(self.a))):
-                fn = self if self.label < f.label else f
+                fn = self
+                if self.label is not None and f.label is not None and f.label < self.label:
+                    fn = f
                 pieces.append(Affine2(fn.a, domain, fn.label))  # Shallow copying
                 continue
 
-- 
2.43.0


From 083e993b7b25f5246fc59054da4bbb02764adfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 14/54] fix: in_triangle rejected clockwise triangles and
 accepted points outside degenerate ones

---
 blueprint/src/python/exponent_pair.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index a85106c..991a329 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -259,6 +259,12 @@ def in_triangle(a, b, c, p):
      d = ((b[1] - c[1])*(a[0] - c[0]) + (c[0] - b[0])*(a[1] - c[1]))
      x = ((b[1] - c[1])*(p[0] - c[0]) + (c[0] - b[0])*(p[1] - c[1]))
      y = ((c[1] - a[1])*(p[0] - c[0]) + (a[0] - c[0])*(p[1] - c[1]))
+     # Vertices in clockwise order
+     if d < 0: 
+         d, x, y = -d, -x, -y
+     # If the triangle is degenerate, p must also lie between its vertices
+     if d == 0 and not all(min(a[i], b[i], c[i]) <= p[i] <= max(a[i], b[i], c[i]) for i in range(2)):
+         return False
      return 0 <= x and x <= d and 0 <= y and y <= d and x + y <= d
 
 def construct_proof(
-- 
2.43.0


From 070b5c8f1758f950954e89859112432ca1632a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 15/54] fix: construct_proof crashed with fewer than three
 exponent pairs

---
 blueprint/src/python/exponent_pair.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index 991a329..543de59 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -349,6 +349,9 @@ def construct_proof(
                 lowest_comp = comp
                 best_tri = tri
 
+    # With fewer than three exponent pairs there are no triangles to choose from
+    if best_tri is None: best_tri = verts
+
     proof = "Follows from convexity and the exponent pairs " + ", ".join(
             f"({v.data.k}, {v.data.l})" for v in best_tri)
     return derived_exp_pair(k, l, proof, set(best_tri))
-- 
2.43.0


From c6d354a00475f14ad1cf6d06cfc9ee38240fa1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 16/54] fix: find_best_proof ignored the computed exponent
 pairs for method NONE

---
 blueprint/src/python/exponent_pair.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index 543de59..3e37bcc 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -466,6 +466,6 @@ def find_best_proof(
         hyps = copy.copy(hypotheses)
         hyps.add_hypotheses(beta_bounds_to_exponent_pairs(hyps))
         hyps.add_hypotheses(compute_exp_pairs(hyps, prune=True))
-        return construct_proof(k, l, hypotheses, deep_search=False, reduce_dependencies=False)
+        return construct_proof(k, l, hyps, deep_search=False, reduce_dependencies=False)
     else:
         raise NotImplementedError()
-- 
2.43.0


From 6ebb37992328b3be3ca32f590f4ce654971d45ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 17/54] fix: find_best_proof crashed when sorting by date with
 a conjecture in the set

---
 blueprint/src/python/exponent_pair.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index 3e37bcc..996407f 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -401,19 +401,15 @@ def find_best_proof(
     # Generate a proof of the exponent pair (k, l) by minimising the date of the
     # last dependency
     if method == Proof_Optimization_Method.DATE:
-        from_year = min(
-            h.reference.year()
-            for h in hypotheses
-            if h.reference.year() != "Unknown date"
-        )
-        to_year = max(
+        # The year of a conjecture is infinite, so iterate over the years that occur
+        years = set(
             h.reference.year()
             for h in hypotheses
             if h.reference.year() != "Unknown date"
         )
 
         num_hypotheses = 0
-        for year in range(from_year, to_year + 1):
+        for year in sorted(years):
             hyps = Hypothesis_Set(
                 h
                 for h in hypotheses
-- 
2.43.0


From fedf525cf46a2cf3b227acd8f0ff312c96a2b774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 18/54] fix: compute_best_beta_bounds did not crop a single
 bound to the domain

---
 blueprint/src/python/bound_beta.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/bound_beta.py b/blueprint/src/python/bound_beta.py
index 917f411..3aca22d 100644
--- a/blueprint/src/python/bound_beta.py
+++ b/blueprint/src/python/bound_beta.py
@@ -132,7 +132,7 @@ def compute_best_beta_bounds(hypothesis_set, domain=None):
         domain = Interval(0, frac(1, 2), include_lower=True, include_upper=True)
 
     # handle edge cases
-    if len(bounds) < 2:
+    if len(bounds) == 0:
         return bounds
 
     # Create temporary deep copy of bounds to work with
@@ -143,7 +143,7 @@ def compute_best_beta_bounds(hypothesis_set, domain=None):
         bds[i].label = i
 
     # Iterate through all bounds
-    best_bounds = [bds[0]]
+    best_bounds = bds[0].min_with([], domain)
     for i in range(1, len(bds)):
         best_bounds = bds[i].min_with(best_bounds, domain)
 
-- 
2.43.0


From 152d1f92831ab98d9c085e19bb7acf32dc5e0648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 19/54] fix: beta bounds with a gap in their domain were
 converted to exponent pairs

---
 blueprint/src/python/exponent_pair.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index 996407f..ea5f243 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -185,6 +185,10 @@ def beta_bounds_to_exponent_pairs(
     if len(beta_bound) == 0 or (
         beta_bound[0].data.bound.domain.x0 > 0
         or beta_bound[-1].data.bound.domain.x1 < frac(1, 2)
+        or any(
+            beta_bound[i].data.bound.domain.x1 < beta_bound[i + 1].data.bound.domain.x0
+            for i in range(len(beta_bound) - 1)
+        )
     ):
         return []
 
-- 
2.43.0


From de93026be1952c683db20ccf39d205621cb2b1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 20/54] fix: ivic_ep_to_zd built an expression that cannot be
 parsed

---
 blueprint/src/python/zero_density_estimate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 4d50b7f..7cae4f7 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -552,7 +552,7 @@ def ivic_ep_to_zd(exp_pairs, m=2):
     sigma0 = max(sigma0, frac(9 * m * m - 4 * m + 2, 12 * m * m - 6 * m + 2))
     sigma0 = min(sigma0, frac(6 * m * m - 5 * m + 2, 8 * m * m - 7 * m + 2))
 
-    zde = Zero_Density_Estimate(f"{3*m}/({3*m-2}x + {2-m})", Interval(sigma0, 1))
+    zde = Zero_Density_Estimate(f"{3*m}/({3*m-2}*x + {2-m})", Interval(sigma0, 1))
     return derived_zero_density_estimate(
         zde, f"Follows from {dep.data}", {dep}
     )
-- 
2.43.0


From c95f529a5da7d91dfebaa56011e1b7f09b4049d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 21/54] fix: ep_to_zd passed an argument to a function that
 takes none

---
 blueprint/src/python/zero_density_estimate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 7cae4f7..623a38c 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -725,7 +725,7 @@ def ep_to_zd(hypotheses):
     hypotheses.add_hypotheses(ep.compute_best_beta_bounds(hypotheses))
     ephs = ep.beta_bounds_to_exponent_pairs(hypotheses)
 
-    return bourgain_ep_to_zd(ephs) + [ivic_ep_to_zd(ephs, m=2)]
+    return bourgain_ep_to_zd() + [ivic_ep_to_zd(ephs, m=2)]
 
 # Given a list of tuples (RationalFunction, interval),
 # returns a simplified list of tuples representing the same piecewise defined
-- 
2.43.0


From 0b3f408d79b4a1c276da34da17c7409045b62990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 22/54] fix: missing f-string prefix in the proof text of
 lver_to_zd

---
 blueprint/src/python/zero_density_estimate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 623a38c..3f4885a 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -521,7 +521,7 @@ def lver_to_zd(LVER, LVER_zeta, sigma_interval):
         derived_zero_density_estimate(
             Zero_Density_Estimate.from_rational_func(s[0], s[1]),
             f"Follows from combining {depcount[0]} large value energy regions " + \
-            "and {depcount[1]} zeta large value energy regions",
+            f"and {depcount[1]} zeta large value energy regions",
             deps
         )
         for s in sup
-- 
2.43.0


From c9335604558b0c89b6fda2ec6ad53431a66cb2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 23/54] fix: lv_zlv_to_zd2 used an unbounded zeta large value
 domain

The upper limit on tau had the wrong sign and the limits on sigma and rho were
missing, so the projection onto edges could not be computed.
---
 blueprint/src/python/zero_density_estimate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 3f4885a..2dfe57f 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -440,8 +440,8 @@ def lv_zlv_to_zd2(
         Region.from_polytope(
             Polytope([
                 [-2, 0, 1, 0], # tau >= 2
-                [frac(4,3) * tau0.c, frac(4,3) * tau0.m, 1, 0] # tau <= 4/3 * tau0
-            ])
+                [frac(4,3) * tau0.c, frac(4,3) * tau0.m, -1, 0] # tau <= 4/3 * tau0
+            ] + sigma_rho_constraints)
         ),
         zeta = True
     )
-- 
2.43.0


From a0c137cc51cdbc58021bf82825ef51fd5f577368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 24/54] fix: get_trivial_zlv built a large value estimate from
 a piecewise function

---
 blueprint/src/python/zeta_large_values.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/blueprint/src/python/zeta_large_values.py b/blueprint/src/python/zeta_large_values.py
index 6d4f6dc..592b682 100644
--- a/blueprint/src/python/zeta_large_values.py
+++ b/blueprint/src/python/zeta_large_values.py
@@ -18,16 +18,18 @@ def get_trivial_zlv():
     # Trivial estimate
     domain = Polytope(
         [
-            [-frac(1, 2), 1, 0],  # \sigma > 1/2
-            [1, -1, 0],  # \sigma <= 1
-            [-2, 0, 1],  # \tau >= 2
-            [Constants.TAU_UPPER_LIMIT, 0, -1],  # \tau <= some large number
+            [-frac(1, 2), 1, 0, 0],  # \sigma > 1/2
+            [1, -1, 0, 0],  # \sigma <= 1
+            [-2, 0, 1, 0],  # \tau >= 2
+            [Constants.TAU_UPPER_LIMIT, 0, -1, 0],  # \tau <= some large number
+            [0, 0, 0, 1],  # \rho >= 0
+            [0, 0, 1, -1],  # \rho <= \tau
         ]
     )
     trivial = Hypothesis(
         "Trivial zeta large value estimate",
         "Zeta large value estimate",
-        lv.Large_Value_Estimate(Piecewise([Affine2([0, 0, 1], domain)])),
+        lv.Large_Value_Estimate(Region.from_polytope(domain)),
         "Trivial",
         Reference.trivial(),
     )
-- 
2.43.0


From 374726a29f1bad6f69419c7cc06d2dc8718d128a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 25/54] fix: missing rho coefficient in Bourgain's large value
 estimate

---
 blueprint/src/python/literature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/literature.py b/blueprint/src/python/literature.py
index d1ffe19..77d0cef 100644
--- a/blueprint/src/python/literature.py
+++ b/blueprint/src/python/literature.py
@@ -783,7 +783,7 @@ def add_bourgain_large_values_estimate():
             [1, -1, 0, 0]
         ]),
         Polytope([
-            [8, -12, frac(4,3), 0],     # ρ <= 8 - 12σ + 4τ/3
+            [8, -12, frac(4,3), -1],    # ρ <= 8 - 12σ + 4τ/3
             [0, 0, 0, 1],               # ρ >= 0
             [-frac(1,2), 1, 0, 0],      # σ >= 1/2
             [15, -21, 1, 0],
-- 
2.43.0


From 0ee9a99d91666a821ab8363e568b62b5a92ec72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 26/54] fix: best_mu_bound_piecewise raised for intervals
 outside [0, 1]

---
 blueprint/src/python/bound_mu.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/bound_mu.py b/blueprint/src/python/bound_mu.py
index 3084b19..dc77e21 100644
--- a/blueprint/src/python/bound_mu.py
+++ b/blueprint/src/python/bound_mu.py
@@ -229,14 +229,18 @@ def best_mu_bound_piecewise(sigma_interval, hypothesis_set):
 
     # deal with edge pieces
     if sigma0 < 0:
-        return [("-x + 1/2", sigma0, 0)] + best_mu_bound_piecewise(
+        left = [("-x + 1/2", sigma0, min(0, sigma1))]
+        if sigma1 <= 0: return left
+        return left + best_mu_bound_piecewise(
             Interval(0, sigma1, include_lower=True, include_upper=sigma_interval.include_upper),
             hypothesis_set
         )
     if sigma1 > 1:
+        right = [("0", max(1, sigma0), sigma1)]
+        if sigma0 >= 1: return right
         return best_mu_bound_piecewise(
             Interval(sigma0, 1, include_lower=sigma_interval.include_lower, include_upper=True),
-            hypothesis_set) + [("0", 1, sigma1)]
+            hypothesis_set) + right
 
     # Computed convex hull is stored within `hypothesis_set` the first time
     # to avoid repeatedly computing it for multiple values of sigma.
-- 
2.43.0


From 0583b2a88749d03405365956e1040938598b424a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 27/54] fix: zero density estimates from large values were not
 divided by (1 - sigma)

Corollaries 11.7 and 11.8 bound A(sigma)(1 - sigma), but the supremum was
returned as a bound on A(sigma), which is a stronger, false, estimate.
---
 blueprint/src/python/derived.py               | 2 +-
 blueprint/src/python/zero_density_estimate.py | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/blueprint/src/python/derived.py b/blueprint/src/python/derived.py
index 5993e14..b4c9451 100644
--- a/blueprint/src/python/derived.py
+++ b/blueprint/src/python/derived.py
@@ -352,7 +352,7 @@ def prove_zero_density(
         for x in xs:
             zs = [z for z in zdes if z.data.interval.contains(x)]
             if len(zs) > 0:
-                ys.append(min(z.data.at(x) / (1 - x) for z in zs))
+                ys.append(min(z.data.at(x) for z in zs))
             else:
                 ys.append(None)
         plt.plot(xs, ys)
diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 2dfe57f..874d3b0 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -380,7 +380,8 @@ def lv_zlv_to_zd(
                 f'τ in [{tau0},{2 * tau0}]) and zeta large value estimates (for σ in {sigma_interval}, τ in [{2},{tau0}])'
         deps = {lvr, zlvr}
         hyps.append(derived_zero_density_estimate(
-            Zero_Density_Estimate.from_rational_func(s[0], s[1]),
+            # sup(rho / tau) bounds A(sigma)(1 - sigma)
+            Zero_Density_Estimate.from_rational_func(s[0].div(RF([-1, 1])), s[1]),
             proof,
             deps
         ))
@@ -458,7 +459,8 @@ def lv_zlv_to_zd2(
                 f"value estimates with τ0 = {tau0.to_str('σ')})"
         deps = {lvr, zlvr}
         hyps.append(derived_zero_density_estimate(
-            Zero_Density_Estimate.from_rational_func(s[0], s[1]),
+            # sup(rho / tau) bounds A(sigma)(1 - sigma)
+            Zero_Density_Estimate.from_rational_func(s[0].div(RF([-1, 1])), s[1]),
             proof,
             deps
         ))
@@ -519,7 +521,8 @@ def lver_to_zd(LVER, LVER_zeta, sigma_interval):
 
     return [
         derived_zero_density_estimate(
-            Zero_Density_Estimate.from_rational_func(s[0], s[1]),
+            # sup(rho / tau) bounds A(sigma)(1 - sigma)
+            Zero_Density_Estimate.from_rational_func(s[0].div(RF([-1, 1])), s[1]),
             f"Follows from combining {depcount[0]} large value energy regions " + \
             f"and {depcount[1]} zeta large value energy regions",
             deps
-- 
2.43.0


From 0cfc573cc31638fb135763eb5801efb71f60ea61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 28/54] fix: Polynomial.to_str printed a sign for zero
 coefficients

---
 blueprint/src/python/polynomial.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/blueprint/src/python/polynomial.py b/blueprint/src/python/polynomial.py
index 94ae330..198e385 100644
--- a/blueprint/src/python/polynomial.py
+++ b/blueprint/src/python/polynomial.py
@@ -41,13 +41,12 @@ class Polynomial:
         s = []
         front = True
         for c in self.coefficients:
-            if front: 
-                if c < 0: s.append("-")
-            else:
-                s.append("-" if c < 0 else "+")
-
             mon = Polynomial._monomial_str(c, var, deg)
             if len(mon) > 0:
+                if front: 
+                    if c < 0: s.append("-")
+                else:
+                    s.append("-" if c < 0 else "+")
                 front = False
                 s.append(mon)
             deg += 1
-- 
2.43.0


From cb4b2e68f72bf228ad95daddfc47b3cee1c2c40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 29/54] fix: RationalFunction2 printed a sign for zero
 coefficients

---
 blueprint/src/python/functions.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index f213e2b..0474270 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -706,13 +706,14 @@ class RationalFunction2:
         s = []
         front = True
         for c in coeffs:
-            if front: 
-                if c < 0: s.append("-")
-            else:
-                s.append("-" if c < 0 else "+")
-            s.append(RationalFunction2._mon_str(c, var_name, deg))
+            if c != 0:
+                if front: 
+                    if c < 0: s.append("-")
+                else:
+                    s.append("-" if c < 0 else "+")
+                s.append(RationalFunction2._mon_str(c, var_name, deg))
+                front = False
             deg -= 1
-            front = False
 
         if len(s) == 0: return "0"
         return " ".join(s)
-- 
2.43.0


From 0c88648889bb4027ef74a5a8b61c62977cae8242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 30/54] fix: RationalFunction2 tested the leading instead of
 the constant coefficients

Coefficients are stored from highest to lowest degree, so e.g. x was reported
as the constant 1.
---
 blueprint/src/python/functions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 0474270..c07d8d7 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -685,7 +685,7 @@ class RationalFunction2:
         if self.is_zero(): 
             return f"0 on {self.domain}"
         if self.is_constant(): 
-            return f"{self._num_coeffs[0] / self._den_coeffs[0]} on {self.domain}"
+            return f"{self._num_coeffs[-1] / self._den_coeffs[-1]} on {self.domain}"
 
         num = RationalFunction2._poly_str(self._num_coeffs, "x")
         den = RationalFunction2._poly_str(self._den_coeffs, "x")
@@ -732,12 +732,12 @@ class RationalFunction2:
         return all(c == 0 for c in self._num_coeffs)
 
     def is_constant(self):
-        return all(c == 0 for c in self._num_coeffs[1:]) and \
-                all(c == 0 for c in self._den_coeffs[1:])
+        return all(c == 0 for c in self._num_coeffs[:-1]) and \
+                all(c == 0 for c in self._den_coeffs[:-1])
 
     def is_affine(self):
-        return all(c == 0 for c in self._num_coeffs[2:]) and \
-                all(c == 0 for c in self._den_coeffs[1:])
+        return all(c == 0 for c in self._num_coeffs[:-2]) and \
+                all(c == 0 for c in self._den_coeffs[:-1])
 
     
 # Represents the univariate function P(x)/Q(x) where P, Q are polynomials. Currently
-- 
2.43.0


From f54617a010f5614bab8cbb680d76542cb27a2a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 31/54] fix: RationalFunction2 could not be built from a list
 of several coefficients

---
 blueprint/src/python/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index c07d8d7..49cbc18 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -671,7 +671,7 @@ class RationalFunction2:
         if len(coeffs) == 0:
             raise ValueError("Parameter coeffs must have at least 1 element")
 
-        if len(coeffs) == 1:
+        if isinstance(coeffs, list) or len(coeffs) == 1:
             self._num_coeffs = tuple(coeffs)
             self._den_coeffs = tuple([1])
         else:
-- 
2.43.0


From f18687c2d5a5f3109792e5f2a7bbb63270829851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 32/54] fix: Reference_Manager.find_all raised for entries
 without author or year

---
 blueprint/src/python/reference.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/reference.py b/blueprint/src/python/reference.py
index a4ab596..b2ef23d 100644
--- a/blueprint/src/python/reference.py
+++ b/blueprint/src/python/reference.py
@@ -93,8 +93,8 @@ class Reference_Manager:
         refs = []
         for k in self.refs:
             ref = self.refs[k]
-            if (author == "Any" or author in ref.entries["author"]) and (
-                year == "Any" or ref.entries["year"] == year
+            if (author == "Any" or author in ref.entries.get("author", "")) and (
+                year == "Any" or ref.entries.get("year") == year
             ):
                 refs.append(ref)
         return refs
-- 
2.43.0


From 7229ba5443dd76ec05a2a19cd385002ed267da0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 33/54] fix: Interval.midpoint stays exact for integer end
 points

---
 blueprint/src/python/functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 49cbc18..9ea0afe 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -85,7 +85,8 @@ class Interval:
 
     # Returns the midpoint of the interval
     def midpoint(self):
-        return (self.x0 + self.x1) / 2
+        # (multiplying by a Fraction keeps integer end points exact)
+        return (self.x0 + self.x1) * frac(1, 2)
 
     # Returns true if the interval contains the point x
     def contains(self, x):
-- 
2.43.0


From 65ad5ec7271c42580dfc545763fe140dbbfe4398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 34/54] fix: exponent pairs on a common line have no
 two-dimensional convex hull

---
 blueprint/src/python/exponent_pair.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index ea5f243..8e18578 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -69,6 +69,17 @@ exponent_pair_conjecture = Hypothesis(
 
 ###############################################################################
 
+# Returns whether all exponent pairs in a list lie on a common line, in which case 
+# the convex hull package cannot be used
+def are_collinear(pairs):
+    pts = [(p.data.k, p.data.l) for p in pairs]
+    b = next((q for q in pts if q != pts[0]), None)
+    if b is None: return True
+    a = pts[0]
+    return all(
+        (b[0] - a[0]) * (q[1] - a[1]) == (b[1] - a[1]) * (q[0] - a[0]) for q in pts
+    )
+
 def compute_exp_pairs(
         hypothesis_set: Hypothesis_Set, 
         search_depth: int = 5, 
@@ -110,7 +121,7 @@ def compute_exp_pairs(
                     pairs[key] = tp
 
         if prune:
-            if len(pairs) < 3:
+            if are_collinear(pairs.values()):
                 continue  # Don't prune if set is too small
             pairs = [p for p in pairs.values()]
             conv = ConvexHull(np.array([[p.data.k, p.data.l] for p in pairs]))
@@ -142,7 +153,7 @@ def compute_convex_hull(hypothesis_set: Hypothesis_Set) -> ConvexHull:
     # Computed convex hull is stored within `hypothesis_list` the first time
     # to avoid repeatedly computing it for multiple values of sigma.
     if not hypothesis_set.data_valid or "exponent_pair_convex_hull" not in hypothesis_set.data:
-        if len(pairs) < 3:
+        if are_collinear(pairs):
             hypothesis_set.data["exponent_pair_convex_hull"] = list(pairs)
         else:
             conv = ConvexHull(np.array([[p.data.k, p.data.l] for p in pairs]))
-- 
2.43.0


From d63ae4e65d81384551d66296c3ef0b5181ced894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 35/54] fix: piecewise mu bounds from a hypothesis set with
 only the trivial bounds

---
 blueprint/src/python/bound_mu.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/bound_mu.py b/blueprint/src/python/bound_mu.py
index dc77e21..333e942 100644
--- a/blueprint/src/python/bound_mu.py
+++ b/blueprint/src/python/bound_mu.py
@@ -246,7 +246,9 @@ def best_mu_bound_piecewise(sigma_interval, hypothesis_set):
     # to avoid repeatedly computing it for multiple values of sigma.
     if not hypothesis_set.data_valid or "convex_hull" not in hypothesis_set.data:
         bounds = get_bounds(hypothesis_set)
-        compute_convex_hull(bounds, hypothesis_set)
+        # Include a placeholder point, see best_mu_bound
+        pts = [b for b in bounds] + [conjecture_bound_mu(1 / 2, 10, "Placeholder")]
+        compute_convex_hull(pts, hypothesis_set)
 
     # The vertices are guaranteed to be in counterclockwise order for 2D hulls
     verts = hypothesis_set.data["convex_hull"]
-- 
2.43.0


From bfd034b31f9b0341c109db47ee76b8282f05a08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:59 +0000
Subject: [PATCH 36/54] fix: piecewise mu bounds skip the upper edges of the
 hull before forming intervals

---
 blueprint/src/python/bound_mu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/bound_mu.py b/blueprint/src/python/bound_mu.py
index 333e942..4dad77b 100644
--- a/blueprint/src/python/bound_mu.py
+++ b/blueprint/src/python/bound_mu.py
@@ -256,10 +256,10 @@ def best_mu_bound_piecewise(sigma_interval, hypothesis_set):
     for i in range(len(verts)):
         b1 = verts[i].data
         b2 = verts[(i + 1) % len(verts)].data
-        if b2.sigma < sigma0 or b1.sigma > sigma1: 
+        if b2.sigma < sigma0 or b1.sigma > sigma1 or b1.sigma >= b2.sigma: 
             continue
         interval = Interval(max(sigma0, b1.sigma), min(sigma1, b2.sigma))
-        if b1.sigma < b2.sigma and not interval.is_empty():
+        if not interval.is_empty():
             mu_bounds.append(
                 Affine(
                     (b2.mu - b1.mu) / (b2.sigma - b1.sigma),
-- 
2.43.0


From d7e2ac47ae831b4ba319b5c057f6f0fcd3b6fabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:29 +0000
Subject: [PATCH 37/54] fix: substitution does not keep vacuous constraints in
 a polytope

A section through a facet left the row 0 >= 0 (or 0 = 0), for which
is_empty(include_boundary=False) and set_minus see no interior.
---
 blueprint/src/python/polytope.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index 4b344d8..7daf239 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -724,14 +724,23 @@ class Polytope:
 
         # The rows of the shrunk matrix with the specified dimensions projected out
         new_rows = []
-        for r in self.mat:
+        lin_set = set() # the rows of the shrunk matrix that are equalities
+        for i in range(self.mat.row_size):
+            r = self.mat[i]
             new_row = [r[0] + sum(r[i + 1] * values[i] for i in values)]
             new_row.extend(r[i] for i in range(1, len(r)) if i - 1 not in values)
+            # Constraints that became vacuous have no interior as 0 >= 0 or 0 = 0
+            if all(x == 0 for x in new_row): continue
+            if i in self.mat.lin_set: lin_set.add(len(new_rows))
             new_rows.append(new_row)
         
+        # Nothing but vacuous constraints: keep the dimension (1 >= 0)
+        if len(new_rows) == 0:
+            new_rows.append([1] + [0] * (self.dimension() - len(values)))
+        
         new_mat = cdd.Matrix(new_rows)
         new_mat.rep_type = cdd.RepType.INEQUALITY
-        new_mat.lin_set = self.mat.lin_set # copy over the lin set
+        new_mat.lin_set = lin_set
         return Polytope._from_mat(new_mat)
 
     # Given a set of integers representing the indices of dimensions, returns a 
-- 
2.43.0


From 832abb61c15c60b56220ddd0f0eb495376a85beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 38/54] fix: scaling a polytope with integer coefficients by
 integer factors is exact

Integer rows divided by integer factors were rounded to floating point numbers.
---
 blueprint/src/python/polytope.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index 7daf239..0f02080 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -439,12 +439,12 @@ class Polytope:
 
         ineq_rows = [list(r) for r in Polytope._matrix_as_list(self.mat, False)]
         for c in ineq_rows:
-            c[i] /= factor
+            c[i] = frac(c[i]) / factor
         ineq_rows.extend(additional_constraints)
 
         eq_rows = [list(r) for r in Polytope._matrix_as_list(self.mat, True)]
         for c in eq_rows:
-            c[i] /= factor
+            c[i] = frac(c[i]) / factor
 
         # The matrix will not have dimensions initialised if the number of inequality
         # rows = 0, hence this strange duplicated code
@@ -475,12 +475,12 @@ class Polytope:
 
         mat = None
         if len(ineq_rows) > 0:
-            ineq_rows = [[r[0]] + [r[i + 1] / factors[i] for i in range(D)] for r in ineq_rows]
+            ineq_rows = [[r[0]] + [frac(r[i + 1]) / factors[i] for i in range(D)] for r in ineq_rows]
             mat = cdd.Matrix(ineq_rows, linear=False, number_type="fraction")
             mat.rep_type = cdd.RepType.INEQUALITY
         
         if len(eq_rows) > 0:
-            eq_rows = [[r[0]] + [r[i + 1] / factors[i] for i in range(D)] for r in eq_rows]
+            eq_rows = [[r[0]] + [frac(r[i + 1]) / factors[i] for i in range(D)] for r in eq_rows]
             if mat is None:
                 mat = cdd.Matrix(eq_rows, linear=True, number_type="fraction")
                 mat.rep_type = cdd.RepType.INEQUALITY
-- 
2.43.0


From 9075e35f117b70dd54e4373226b76b9dcd2bca93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 39/54] fix: crossing of affine functions with integer
 coefficients is exact

Affine.intersection divided integers into a floating point number.
---
 blueprint/src/python/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 9ea0afe..09b5aab 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -185,7 +185,7 @@ class Affine:
     def intersection(self, other):
         if self.m == other.m:
             return None
-        inter = (other.c - self.c) / (self.m - other.m)
+        inter = frac(other.c - self.c) / (self.m - other.m)
         if self.domain.contains(inter) and other.domain.contains(inter):
             return inter
         return None
-- 
2.43.0


From 82d93ab74fc1e920f571556b5409badc41405447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 40/54] fix: text of a region with a complement

Region.to_str iterated over the single child of a complement and raised TypeError.
---
 blueprint/src/python/region.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/region.py b/blueprint/src/python/region.py
index ae87e39..6ccbddc 100644
--- a/blueprint/src/python/region.py
+++ b/blueprint/src/python/region.py
@@ -60,7 +60,8 @@ class Region:
                 return ("\t" * indentation) + p + "\n"
             else:
                 s = ("\t" * indentation) + Region_Type.to_str(region.region_type) + "\n"
-                for r in region.child:
+                # A complement has a single child
+                for r in region.child if isinstance(region.child, list) else [region.child]:
                     s += Region.to_str(r, use_indentation, indentation + 1, variables)
                 return s
             
@@ -69,8 +70,10 @@ class Region:
             if isinstance(region.child, Polytope):
                 return str(region.child) if variables is None else region.child.to_str(variables)
             else:
+                # A complement has a single child
+                children = region.child if isinstance(region.child, list) else [region.child]
                 return Region_Type.to_str(region.region_type) + " of {" + \
-                    ", ".join(Region.to_str(r, use_indentation=False, variables=variables) for r in region.child) + "}"
+                    ", ".join(Region.to_str(r, use_indentation=False, variables=variables) for r in children) + "}"
     
 
     # Private methods --------------------------------------------------------
-- 
2.43.0


From 14d50f9587eec025e8b84e9b0ecfbf24c5535252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:01 +0000
Subject: [PATCH 41/54] fix: the Bourgain large value estimate is limited to
 sigma >= 1/2

One of its pieces contained points with sigma < 1/2 for tau > 6.
---
 blueprint/src/python/literature.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blueprint/src/python/literature.py b/blueprint/src/python/literature.py
index 77d0cef..3dbeb5b 100644
--- a/blueprint/src/python/literature.py
+++ b/blueprint/src/python/literature.py
@@ -777,6 +777,7 @@ def add_bourgain_large_values_estimate():
         Polytope([
             [0, -4, 2, -1],             # ρ <= -4σ + 2τ
             [0, 0, 0, 1],               # ρ >= 0
+            [-frac(1,2), 1, 0, 0],      # σ >= 1/2
             [-6, 2, 2, 0],
             [-12, 12, 1, 0],
             [Constants.TAU_UPPER_LIMIT, 0, -1, 0],
-- 
2.43.0


From fafd93a91feb39ffe4f6781c2748177a5e99d282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 42/54] fix: lver_to_lv of an empty region

It raised AttributeError; like lver_to_energy, return None when there is nothing to project.
---
 blueprint/src/python/additive_energy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blueprint/src/python/additive_energy.py b/blueprint/src/python/additive_energy.py
index d2dfd2a..5b1fa2b 100644
--- a/blueprint/src/python/additive_energy.py
+++ b/blueprint/src/python/additive_energy.py
@@ -398,6 +398,10 @@ def lver_to_lv(hypothesis: Hypothesis) -> Hypothesis:
 
     # Project onto the dimensions (sigma, tau, rho)
     proj = region.project({0, 1, 2})
+
+    # Handle empty projections 
+    if proj is None: return None
+
     proj.simplify()
 
     # Pack into Hypothesis object
-- 
2.43.0


From 10b12bef7b7e1fadaf5c835510a60ccb17c8ab3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 43/54] fix: a copy of a region does not share its polytopes

---
 blueprint/src/python/region.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blueprint/src/python/region.py b/blueprint/src/python/region.py
index 6ccbddc..bb9c7e0 100644
--- a/blueprint/src/python/region.py
+++ b/blueprint/src/python/region.py
@@ -50,6 +50,10 @@ class Region:
         return self.to_str(0)
 
     def __copy__(self):
+        # Copy the children too, so that a label set on a copy does not appear on
+        # the Polytopes of the original
+        if isinstance(self.child, list):
+            return Region(self.region_type, [copy.copy(c) for c in self.child])
         return Region(self.region_type, copy.copy(self.child))
         
     def to_str(region, use_indentation=True, indentation=0, variables=None):
-- 
2.43.0


From 98cd4310d3248489dad88a48e418aa8751d92e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 44/54] fix: constant rational functions with integer
 coefficients are exact

---
 blueprint/src/python/functions.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 09b5aab..e99a802 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -770,7 +770,13 @@ class RationalFunction:
         self.den = den  # the denominator
 
     def __repr__(self):
-        return f"{sympy.latex(sympy.simplify(self.num / self.den))}"
+        return f"{sympy.latex(sympy.simplify(self._quotient()))}"
+
+    # The expression P(x) / Q(x). Integers are divided exactly.
+    def _quotient(self):
+        if isinstance(self.num, int) and isinstance(self.den, int):
+            return frac(self.num, self.den)
+        return self.num / self.den
 
     def __eq__(self, other):
         res = self.num * other.den - self.den * other.num
@@ -828,7 +834,7 @@ class RationalFunction:
 
             new_best_bound = []
             for (func2, in2, ref2) in best_bound:
-                solns = sympy.solve(func1.num / func1.den - func2.num / func2.den)
+                solns = sympy.solve(func1._quotient() - func2._quotient())
                 crits = set(SympyHelper.to_frac(soln) for soln in solns if soln.is_real)
                 crits.update([in1.x0, in1.x1])
                 crits = set(c for c in crits if in2.contains(c))
@@ -899,7 +905,7 @@ class RationalFunction:
     # ------------------------------------------------------------------
 
     def at(self, x):
-        f = self.num / self.den
+        f = self._quotient()
         if isinstance(f, numbers.Number):
             return f
         return f.subs(RationalFunction.x, x)
-- 
2.43.0


From cc059f9c277686a367fdc40a2bfe529d012fe820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 45/54] fix: roots and intersections of rational functions with
 a denominator or a constant

---
 blueprint/src/python/functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index e99a802..bcaf973 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -984,7 +984,7 @@ class RationalFunction:
     # on an interval
     def intersections(self, other, interval):
         # Intersections of P/Q = R/S when PS - RQ = 0
-        f = self.num * other.den - self.den * other.num
+        f = sympy.sympify(self.num * other.den - self.den * other.num)
         if not f.is_constant():
             return [
                 SympyHelper.to_frac(r)
@@ -994,7 +994,8 @@ class RationalFunction:
         return []
 
     def roots(self, interval):
-        f = self.num / self.den
+        # Roots of P/Q are roots of P
+        f = sympy.sympify(self.num)
         if f.is_constant():
             return []
         return [r for r in sympy.real_roots(f) if interval.contains(r)]
-- 
2.43.0


From 2f80489117aeef6d887b803735cb238bb5b259b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:52 +0000
Subject: [PATCH 46/54] fix: a parsed sum of fractions has polynomial numerator
 and denominator

---
 blueprint/src/python/functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index bcaf973..909fb22 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -804,7 +804,8 @@ class RationalFunction:
 
     def parse(expr):
         s = sympy.parsing.sympy_parser.parse_expr(expr)
-        (num, den) = sympy.fraction(s)
+        # Write sums of fractions over a common denominator
+        (num, den) = sympy.fraction(sympy.together(s))
         r = RationalFunction([])
         r.num = num
         r.den = den
-- 
2.43.0


From e10b89aa835b6b418eef889096c92f1e3fe0d9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:47 +0000
Subject: [PATCH 47/54] fix: optimum of rational functions with irrational
 crossings

---
 blueprint/src/python/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 909fb22..b7e44a0 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -835,8 +835,8 @@ class RationalFunction:
 
             new_best_bound = []
             for (func2, in2, ref2) in best_bound:
-                solns = sympy.solve(func1._quotient() - func2._quotient())
-                crits = set(SympyHelper.to_frac(soln) for soln in solns if soln.is_real)
+                # All real crossings (solve may return radicals not known to be real)
+                crits = set(func1.intersections(func2, in2))
                 crits.update([in1.x0, in1.x1])
                 crits = set(c for c in crits if in2.contains(c))
                 crits.update([in2.x0, in2.x1])
-- 
2.43.0


From e62df016c73e9e7e96d2abf8fc9a0ddac95b38d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:43 +0000
Subject: [PATCH 48/54] fix: supremum over polytopes with integer vertices is
 exact

---
 blueprint/src/python/zero_density_energy_estimate.py | 8 ++++----
 blueprint/src/python/zero_density_estimate.py        | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/blueprint/src/python/zero_density_energy_estimate.py b/blueprint/src/python/zero_density_energy_estimate.py
index e49d2a4..7e52850 100644
--- a/blueprint/src/python/zero_density_energy_estimate.py
+++ b/blueprint/src/python/zero_density_energy_estimate.py
@@ -302,13 +302,13 @@ def compute_sup_LV_on_tau(
 
             # tau as a (linear) function of sigma along this edge
             tau = RF([
-                (tau1 - tau2) / (sigma1 - sigma2), 
-                (sigma1 * tau2 - sigma2 * tau1) / (sigma1 - sigma2)
+                frac(tau1 - tau2) / (sigma1 - sigma2), 
+                frac(sigma1 * tau2 - sigma2 * tau1) / (sigma1 - sigma2)
             ])
             # rho as a linear function of sigma along this edge
             rho = RF([
-                (rho1 - rho2) / (sigma1 - sigma2), 
-                (sigma1 * rho2 - sigma2 * rho1) / (sigma1 - sigma2)
+                frac(rho1 - rho2) / (sigma1 - sigma2), 
+                frac(sigma1 * rho2 - sigma2 * rho1) / (sigma1 - sigma2)
             ])
 
             fns.append((rho.div(tau), Interval(min(sigma1, sigma2), max(sigma1, sigma2))))
diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 874d3b0..f66fa01 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -283,13 +283,13 @@ def compute_sup_rho_on_tau(polys: list, sigma_interval: Interval) -> list:
 
             # tau as a (linear) function of sigma along this edge
             tau = RF([
-                (tau1 - tau2) / (sigma1 - sigma2),
-                (sigma1 * tau2 - sigma2 * tau1) / (sigma1 - sigma2)
+                frac(tau1 - tau2) / (sigma1 - sigma2),
+                frac(sigma1 * tau2 - sigma2 * tau1) / (sigma1 - sigma2)
             ])
             # rho as a linear function of sigma along this edge
             rho = RF([
-                (rho1 - rho2) / (sigma1 - sigma2),
-                (sigma1 * rho2 - sigma2 * rho1) / (sigma1 - sigma2)
+                frac(rho1 - rho2) / (sigma1 - sigma2),
+                frac(sigma1 * rho2 - sigma2 * rho1) / (sigma1 - sigma2)
             ])
 
             fns.append((rho.div(tau), Interval(min(sigma1, sigma2), max(sigma1, sigma2))))
-- 
2.43.0


From 6c1cb8d7e409e1ec2c2fe50dfb5d8eef772722b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:53 +0000
Subject: [PATCH 49/54] fix: suprema over a single polytope or an empty
 projection

---
 .../python/zero_density_energy_estimate.py    |  5 +++--
 blueprint/src/python/zero_density_estimate.py | 20 ++++++++++++-------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/blueprint/src/python/zero_density_energy_estimate.py b/blueprint/src/python/zero_density_energy_estimate.py
index 7e52850..4c7258f 100644
--- a/blueprint/src/python/zero_density_energy_estimate.py
+++ b/blueprint/src/python/zero_density_energy_estimate.py
@@ -13,7 +13,7 @@ from functions import Affine, Interval, RationalFunction as RF
 from hypotheses import Hypothesis, Hypothesis_Set
 from polytope import Polytope
 from reference import Reference
-from region import Region
+from region import Region, Region_Type
 
 
 class Zero_Density_Energy_Estimate:
@@ -277,7 +277,8 @@ def compute_sup_LV_on_tau(
     """
     # assume that LV_region is a union of polytopes and that the (sigma-tau) domain
     # is already correct
-    polys = [r.child for r in LV_region.child]
+    pieces = [LV_region] if LV_region.region_type == Region_Type.POLYTOPE else LV_region.child
+    polys = [r.child for r in pieces]
 
     # each polytope is 3-dimensional. Find all edges and project them onto the 
     # sigma dimension. For those with a non-zero projection, compute rho / tau along 
diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index f66fa01..4ab0ef7 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -17,7 +17,7 @@ import matplotlib.pyplot as plt
 import numpy as np
 from polytope import Polytope
 from reference import Reference
-from region import Region
+from region import Region, Region_Type
 import scipy
 import numbers
 import zeta_large_values as zlv
@@ -498,18 +498,24 @@ def lver_to_zd(LVER, LVER_zeta, sigma_interval):
     if LVER is not None:
         # Project (sigma, tau, rho, rho*, s) -> (sigma, tau, rho)
         proj = LVER.data.region.project({0, 1, 2})
-        proj.simplify()
-        sup1 = compute_sup_rho_on_tau([r.child for r in proj.child], sigma_interval)
-        fns.extend(list(sup1))
+        # The projection is None if empty, and a single polytope is not a union
+        if proj is not None:
+            proj.simplify()
+            polys = [proj] if proj.region_type == Region_Type.POLYTOPE else proj.child
+            sup1 = compute_sup_rho_on_tau([r.child for r in polys], sigma_interval)
+            fns.extend(list(sup1))
         deps.update(list(LVER.dependencies))
         depcount[0] = len(LVER.dependencies)
 
     if LVER_zeta is not None:
         # Project (sigma, tau, rho, rho*, s) -> (sigma, tau, rho)
         proj = LVER_zeta.data.region.project({0, 1, 2})
-        proj.simplify()
-        sup2 = compute_sup_rho_on_tau([r.child for r in proj.child], sigma_interval)
-        fns.extend(list(sup2))
+        # The projection is None if empty, and a single polytope is not a union
+        if proj is not None:
+            proj.simplify()
+            polys = [proj] if proj.region_type == Region_Type.POLYTOPE else proj.child
+            sup2 = compute_sup_rho_on_tau([r.child for r in polys], sigma_interval)
+            fns.extend(list(sup2))
         deps.update(list(LVER_zeta.dependencies))
         depcount[1] = len(LVER_zeta.dependencies)
 
-- 
2.43.0


From 0c5e803c9eb8b4dc4423028e91a6caf85a65abda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:39 +0000
Subject: [PATCH 50/54] fix: trivial energy estimate from a derived zero
 density estimate

---
 blueprint/src/python/zero_density_energy_estimate.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/blueprint/src/python/zero_density_energy_estimate.py b/blueprint/src/python/zero_density_energy_estimate.py
index 4c7258f..c7d526d 100644
--- a/blueprint/src/python/zero_density_energy_estimate.py
+++ b/blueprint/src/python/zero_density_energy_estimate.py
@@ -155,11 +155,11 @@ def add_trivial_zero_density_energy_estimates(hypotheses: Hypothesis_Set):
     # add zero density energy estimates arising from A(sigma)
     zdes = hypotheses.list_hypotheses(hypothesis_type="Zero density estimate")
     for zde in zdes:
-        hypotheses.add_hypothesis(
-            trivial_zero_density_energy_estimate(
-                Zero_Density_Energy_Estimate(f"3 * ({zde.data.expr})", zde.data.interval)
-            )
-        )
+        data = Zero_Density_Energy_Estimate(f"3 * ({zde.data.expr})", zde.data.interval)
+        # The expression of a derived estimate is for display only and cannot be parsed
+        if zde.data.bound is not None:
+            data.bound = zde.data.bound.mul(3)
+        hypotheses.add_hypothesis(trivial_zero_density_energy_estimate(data))
     
     # add zero density energy estimates arising from A*(1/2) = 6 and non-increasingness
     # of (1 - \sigma) A*(\sigma), which implies A*(\sigma) \leq 3/(1-\sigma) for \sigma
-- 
2.43.0


From 17b7f6b90f0a2a9cdfae9f79f724b583fbb9b438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:22 +0000
Subject: [PATCH 51/54] fix: text of a constraint keeps a leading minus sign
 and names every variable

---
 blueprint/src/python/polytope.py | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index 0f02080..ff53456 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -32,22 +32,9 @@ class Constraint:
         # Get symbols
         ch_set = list("xyzwu")
         if len(self.coefficients) > 5:
-            ch_set = [f"x_{i}" for i in range(1, len(self.coefficients) - 1)]
-
-        f = ""
-        if self.coefficients[0] != 0:
-            f += str(self.coefficients[0])
-        for i in range(1, len(self.coefficients)):
-            v = ch_set[i - 1]
-            c = self.coefficients[i]
-            if c == 0:
-                continue
-            if len(f) != 0:
-                f += " + " if c > 0 else " - "
-            if c == 1 or c == -1:
-                f += v
-            else:
-                f += str(abs(c)) + v
+            ch_set = [f"x_{i}" for i in range(1, len(self.coefficients))]
+
+        f = Str_Helper.format(self.coefficients, ch_set)
 
         if self.inequality_type == Constraint.GREATER_EQUALS:
             return f"{f} >= 0"
-- 
2.43.0


From e0d19112c844a1eb8be482b0ff355032df81555c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:22 +0000
Subject: [PATCH 52/54] fix: text of a rational function with a constant or
 scaled denominator

---
 blueprint/src/python/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index b7e44a0..745e906 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -686,7 +686,7 @@ class RationalFunction2:
         if self.is_zero(): 
             return f"0 on {self.domain}"
         if self.is_constant(): 
-            return f"{self._num_coeffs[-1] / self._den_coeffs[-1]} on {self.domain}"
+            return f"{frac(1) * self._num_coeffs[-1] / self._den_coeffs[-1]} on {self.domain}"
 
         num = RationalFunction2._poly_str(self._num_coeffs, "x")
         den = RationalFunction2._poly_str(self._den_coeffs, "x")
@@ -696,7 +696,7 @@ class RationalFunction2:
  
         # Add brackets if required 
         if sum(1 for c in self._num_coeffs if c != 0) > 1: num = "(" + num + ")"
-        if sum(1 for c in self._den_coeffs if c != 0) > 1: den = "(" + den + ")"
+        if [c for c in self._den_coeffs if c != 0] != [1] and not den.isdigit(): den = "(" + den + ")"
 
         return f"{num}/{den} on {self.domain}"
 
-- 
2.43.0


From 9b9f923ee01c564285989037e7ee365f0db1ad45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:30 +0000
Subject: [PATCH 53/54] fix: bibliography files may start with blank lines or
 comments

---
 blueprint/src/python/reference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/reference.py b/blueprint/src/python/reference.py
index b2ef23d..8c99761 100644
--- a/blueprint/src/python/reference.py
+++ b/blueprint/src/python/reference.py
@@ -80,7 +80,7 @@ class Reference_Manager:
 
         # parse file
         s = " ".join(l.strip() for l in lines)
-        items = s.split("@")
+        items = s.split("@")[1:]  # text before the first entry is ignored
 
         for item in items:
             if len(item) == 0:
-- 
2.43.0


From c3770c80279277db760119f4e1e0b3547c837407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:06 +0000
Subject: [PATCH 54/54] fix: keep the zeta estimates of beta bounds below
 TAU_UPPER_LIMIT

---
 blueprint/src/python/zeta_large_values.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/zeta_large_values.py b/blueprint/src/python/zeta_large_values.py
index 592b682..3ddfbb9 100644
--- a/blueprint/src/python/zeta_large_values.py
+++ b/blueprint/src/python/zeta_large_values.py
@@ -122,7 +122,9 @@ def beta_to_zlv(hypotheses):
             else min(Constants.TAU_UPPER_LIMIT, 1 / alpha0)
         )
         tau_lower = (
-            Constants.TAU_UPPER_LIMIT if alpha1 == 0 else max(frac(2, 1), 1 / alpha1)
+            Constants.TAU_UPPER_LIMIT
+            if alpha1 == 0
+            else min(Constants.TAU_UPPER_LIMIT, max(frac(2, 1), 1 / alpha1))
         )
 
         # In order for the min_with function to work we require that we have a
-- 
2.43.0

