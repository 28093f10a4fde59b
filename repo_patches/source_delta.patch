From f3040dbd348a5744e502877db8e5bf81425612c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:44 +0000
Subject: [PATCH 01/46] fix: keep the transformation diary when join_points is
 replayed

---
 puncturedfem/mesh/edge.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/puncturedfem/mesh/edge.py b/puncturedfem/mesh/edge.py
index 0484545..bb43b06 100644
--- a/puncturedfem/mesh/edge.py
+++ b/puncturedfem/mesh/edge.py
@@ -179,14 +179,18 @@ class Edge:
         endpnt : Vert
             The vertex at the end of the Edge.
         """
-        self.anchor = anchor
-        self.endpnt = endpnt
-        self.is_loop = self.anchor == self.endpnt
+        self._set_endpoints(anchor, endpnt)
         if self.is_loop:
             self.diary = [("translate", (anchor,))]
         else:
             self.diary = [("join_points", (anchor, endpnt))]
 
+    def _set_endpoints(self, anchor: Vert, endpnt: Vert) -> None:
+        # set the endpoints without touching the transformation diary
+        self.anchor = anchor
+        self.endpnt = endpnt
+        self.is_loop = self.anchor == self.endpnt
+
     def set_cells(self, pos_cell_idx: int, neg_cell_idx: int) -> None:
         """Set the positively and negatively oriented MeshCells of the Edge."""
         self.pos_cell_idx = pos_cell_idx
@@ -425,8 +429,9 @@ class Edge:
             # anchor at point a
             self.translate(a, write_diary=False)
 
-            # set vertices
-            self.set_verts(a, b)
+            # set vertices (keep the diary: earlier and later transformations
+            # must be replayed the next time the Edge is parameterized)
+            self._set_endpoints(a, b)
 
     def rotate(self, theta: float, write_diary: bool = True) -> None:
         """
-- 
2.43.0


From 385e2642610875e2df58b36f09a37bc0798d330e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:44 +0000
Subject: [PATCH 02/46] fix: do not record a rejected join_points in the
 transformation diary

---
 puncturedfem/mesh/edge.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/puncturedfem/mesh/edge.py b/puncturedfem/mesh/edge.py
index bb43b06..c88b4ef 100644
--- a/puncturedfem/mesh/edge.py
+++ b/puncturedfem/mesh/edge.py
@@ -398,13 +398,8 @@ class Edge:
         if ab_norm < TOL:
             raise EdgeTransformationError("a and b must be distinct points")
 
-        # record in transformation diary
-        if write_diary:
-            self.diary.append(("join_points", (a, b)))
-
-        # apply to sampled points
+        # check that endpoints of sampled points are distinct
         if self.is_parameterized:
-            # check that endpoints of sampled points are distinct
             x = self.x[:, 0]
             y = self.x[:, self.num_pts - 1]
             xy_norm = np.sqrt((x[0] - y[0]) ** 2 + (x[1] - y[1]) ** 2)
@@ -413,6 +408,12 @@ class Edge:
                     "Edge must have distinct endpoints"
                 )
 
+        # record in transformation diary
+        if write_diary:
+            self.diary.append(("join_points", (a, b)))
+
+        # apply to sampled points
+        if self.is_parameterized:
             # anchor starting point to origin
             self.translate(Vert(x=-x[0], y=-x[1]), write_diary=False)
 
-- 
2.43.0


From cfd43b89477a04ee0d92f04489047afb4f9c12e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:44 +0000
Subject: [PATCH 03/46] fix: turn tangent and normal when dilating an Edge by a
 negative factor

---
 puncturedfem/mesh/edge.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/puncturedfem/mesh/edge.py b/puncturedfem/mesh/edge.py
index c88b4ef..6535ba5 100644
--- a/puncturedfem/mesh/edge.py
+++ b/puncturedfem/mesh/edge.py
@@ -561,7 +561,11 @@ class Edge:
         if self.is_parameterized:
             self.x *= alpha
             self.dx_norm *= np.abs(alpha)
-            self.curvature *= 1 / alpha
+            self.curvature *= 1 / np.abs(alpha)
+            if alpha < 0:
+                # a rotation by 180 degrees
+                self.unit_tangent *= -1
+                self.unit_normal *= -1
 
     def apply_orthogonal_transformation(
         self, A: np.ndarray, write_diary: bool = True
-- 
2.43.0


From 04a762e8b5cdbb5dd595f4d709efd11bec2d99b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:44 +0000
Subject: [PATCH 04/46] fix: record a copy of the matrix passed to
 apply_orthogonal_transformation

---
 puncturedfem/mesh/edge.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/puncturedfem/mesh/edge.py b/puncturedfem/mesh/edge.py
index 6535ba5..a17e3db 100644
--- a/puncturedfem/mesh/edge.py
+++ b/puncturedfem/mesh/edge.py
@@ -595,7 +595,9 @@ class Edge:
 
         # record in transformation diary
         if write_diary:
-            self.diary.append(("apply_orthogonal_transformation", (A,)))
+            self.diary.append(
+                ("apply_orthogonal_transformation", (np.array(A),))
+            )
 
         # apply to sampled points
         if self.is_parameterized:
-- 
2.43.0


From 592c9e2dda732b4015fff011263d56371f70990f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:20 +0000
Subject: [PATCH 05/46] fix: negating a Monomial returns a new Monomial

---
 puncturedfem/locfun/poly/monomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/puncturedfem/locfun/poly/monomial.py b/puncturedfem/locfun/poly/monomial.py
index 7aa20aa..a6f383e 100644
--- a/puncturedfem/locfun/poly/monomial.py
+++ b/puncturedfem/locfun/poly/monomial.py
@@ -348,6 +348,6 @@ class Monomial:
             + " by another Monomial"
         )
 
-    def __neg__(self) -> None:
+    def __neg__(self) -> Monomial:
         """Define negation operation: -self."""
-        self.coef *= -1
+        return -1 * self
-- 
2.43.0


From be01eda40ad9b1c553ed4d8da87717fba20cb42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:42 +0000
Subject: [PATCH 06/46] fix: adding a Polynomial to itself in place terminates

---
 puncturedfem/locfun/poly/poly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/puncturedfem/locfun/poly/poly.py b/puncturedfem/locfun/poly/poly.py
index 54a9e20..ba5081e 100644
--- a/puncturedfem/locfun/poly/poly.py
+++ b/puncturedfem/locfun/poly/poly.py
@@ -109,7 +109,7 @@ class Polynomial:
         """
         if monos is None:
             return
-        for m in monos:
+        for m in list(monos):
             self.add_monomial(m)
         self.consolidate()
 
@@ -548,7 +548,7 @@ class Polynomial:
             Object to add to self. Must be either a Polynomial or a scalar.
         """
         if isinstance(other, Polynomial):
-            for m in other.monos:
+            for m in list(other.monos):
                 self.add_monomial(m)
             self.consolidate()
         elif isinstance(other, (int, float)):
-- 
2.43.0


From 30844e87712fb6f72e550f2dfa8b25b22ec55202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:18 +0000
Subject: [PATCH 07/46] fix: compare Polynomials by value when terms are
 repeated

---
 puncturedfem/locfun/poly/poly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/puncturedfem/locfun/poly/poly.py b/puncturedfem/locfun/poly/poly.py
index ba5081e..98ffe77 100644
--- a/puncturedfem/locfun/poly/poly.py
+++ b/puncturedfem/locfun/poly/poly.py
@@ -482,10 +482,10 @@ class Polynomial:
         """
         if not isinstance(other, Polynomial):
             raise TypeError("Cannot compare Polynomial to non-Polynomial")
+        self.consolidate()
+        other.consolidate()
         if len(self.monos) != len(other.monos):
             return False
-        self.sort()
-        other.sort()
         for i, m in enumerate(self.monos):
             if m != other.monos[i]:
                 return False
-- 
2.43.0


From 51bbb9402a3f03633152f6375c7e935b7d515b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:42 +0000
Subject: [PATCH 08/46] fix: normalize the terms of a Polynomial atomically

---
 puncturedfem/locfun/poly/poly.py | 47 ++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/puncturedfem/locfun/poly/poly.py b/puncturedfem/locfun/poly/poly.py
index 98ffe77..53c7b7d 100644
--- a/puncturedfem/locfun/poly/poly.py
+++ b/puncturedfem/locfun/poly/poly.py
@@ -115,20 +115,26 @@ class Polynomial:
 
     def remove_zeros(self) -> None:
         """Remove terms with zero coefficients."""
-        for i in range(len(self.monos), 0, -1):
-            if self.monos[i - 1].is_zero():
-                del self.monos[i - 1]
+        self.monos = [m for m in self.monos if not m.is_zero()]
 
     def consolidate(self) -> None:
-        """Consolidate the coefficients of repeated indices."""
-        N = len(self.monos)
+        """
+        Consolidate the coefficients of repeated indices.
+
+        Notes
+        -----
+        The normalized list of Monomials is built aside and then set at once:
+        read-only operations normalize too, and must not expose (or leave
+        behind, if interrupted) a partially consolidated Polynomial.
+        """
+        monos = list(self.monos)
+        N = len(monos)
         for i in range(N):
             for j in range(i + 1, N):
-                if self.monos[i].alpha == self.monos[j].alpha:
-                    self.monos[i] += self.monos[j]
-                    self.monos[j] *= 0
-        self.remove_zeros()
-        self.sort()
+                if monos[i].alpha == monos[j].alpha:
+                    monos[i] += monos[j]
+                    monos[j] *= 0
+        self.monos = _sorted([m for m in monos if not m.is_zero()])
 
     def sort(self) -> None:
         """
@@ -139,13 +145,7 @@ class Polynomial:
         Using Insertion Sort algorithm since Monomial list is assumed be be
         short.
         """
-        for i in range(len(self.monos)):
-            j = i
-            while j > 0 and self.monos[j - 1] > self.monos[j]:
-                temp = self.monos[j - 1]
-                self.monos[j - 1] = self.monos[j]
-                self.monos[j] = temp
-                j -= 1
+        self.monos = _sorted(self.monos)
 
     def add_monomial_with_idx(self, coef: float, idx: int) -> None:
         """
@@ -664,3 +664,16 @@ class Polynomial:
             Nonnegative integer exponent.
         """
         return self.pow(exponent)
+
+
+def _sorted(monomials: list[Monomial]) -> list[Monomial]:
+    # insertion sort, leaving the given list alone
+    monos = list(monomials)
+    for i in range(len(monos)):
+        j = i
+        while j > 0 and monos[j - 1] > monos[j]:
+            temp = monos[j - 1]
+            monos[j - 1] = monos[j]
+            monos[j] = temp
+            j -= 1
+    return monos
-- 
2.43.0


From 57c9e840842dc4cc30044498c7ec07a579a9882f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:18 +0000
Subject: [PATCH 09/46] fix: split_edge leaves the list of split parameters
 alone

---
 puncturedfem/mesh/split_edge.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/puncturedfem/mesh/split_edge.py b/puncturedfem/mesh/split_edge.py
index d85422f..16407eb 100644
--- a/puncturedfem/mesh/split_edge.py
+++ b/puncturedfem/mesh/split_edge.py
@@ -75,9 +75,8 @@ def split_edge(
 
 
 def _split_edge_multiple(e: Edge, t_split: list[float]) -> list[Edge]:
-    t_split.sort()
     edges = []
-    for t in t_split:
+    for t in sorted(t_split):
         e1, e2 = _split_edge_single(e, t)
         edges.append(e1)
         e = e2
-- 
2.43.0


From c1c7302acd9608a3e3f8768d02518739095ea6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:18 +0000
Subject: [PATCH 10/46] fix: pieces of a mirrored edge are mirrored too

---
 puncturedfem/mesh/split_edge.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/puncturedfem/mesh/split_edge.py b/puncturedfem/mesh/split_edge.py
index 16407eb..803fd3f 100644
--- a/puncturedfem/mesh/split_edge.py
+++ b/puncturedfem/mesh/split_edge.py
@@ -120,4 +120,22 @@ def _split_edge_single(e: Edge, t_split: float = np.pi) -> tuple[Edge, Edge]:
         **e.curve_opts
     )
 
+    # joining the endpoints preserves the orientation of the plane, so a parent
+    # that was mirrored needs mirrored pieces
+    if _is_mirrored(e):
+        for piece in (e1, e2):
+            piece.diary.insert(0, ("reflect_across_x_axis", ()))
+
     return e1, e2
+
+
+def _is_mirrored(e: Edge) -> bool:
+    # whether the transformations of e reverse the orientation of the plane
+    mirrored = False
+    for method_name, args in e.diary:
+        if method_name in ("reflect_across_x_axis", "reflect_across_y_axis"):
+            mirrored = not mirrored
+        elif method_name == "apply_orthogonal_transformation":
+            if np.linalg.det(args[0]) < 0:
+                mirrored = not mirrored
+    return mirrored
-- 
2.43.0


From 102355292b46d94a12057dd16681931bb4085b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:24 +0000
Subject: [PATCH 11/46] fix: find the outer boundary of a cell whatever the
 order of its edges

---
 puncturedfem/mesh/cell.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/puncturedfem/mesh/cell.py b/puncturedfem/mesh/cell.py
index 4c340b3..89afc08 100644
--- a/puncturedfem/mesh/cell.py
+++ b/puncturedfem/mesh/cell.py
@@ -349,7 +349,9 @@ class MeshCell:
         # find component that contains all other components
         outer_boundary_idx = 0
         for i in range(self.num_holes + 1):
-            for j in range(i + 1, self.num_holes + 1):
+            for j in range(self.num_holes + 1):
+                if j == i:
+                    continue
                 # check if contour j is contained in contour i
                 x1, x2 = self.components[j].get_sampled_points()
                 is_inside = self.components[i].is_in_interior_contour(x1, x2)
-- 
2.43.0


From 4cf0150eba37e2ce09b48464e8c7ac6b44a5f8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:39 +0000
Subject: [PATCH 12/46] fix: list the degrees of freedom of a cell once however
 often its space is built

---
 puncturedfem/solver/globfunsp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/puncturedfem/solver/globfunsp.py b/puncturedfem/solver/globfunsp.py
index 735d007..1b02e3c 100644
--- a/puncturedfem/solver/globfunsp.py
+++ b/puncturedfem/solver/globfunsp.py
@@ -194,11 +194,13 @@ class GlobalFunctionSpace:
             compute_interior_values=compute_interior_values,
             compute_interior_gradient=compute_interior_gradient,
         )
+        keys = []
         for v in local_fun_sp.get_basis():
             glob_idx = self.get_global_idx(v.key, abs_cell_idx)
             v.key.set_glob_idx(glob_idx)
-            self.cell_dofs[abs_cell_idx].append(v.key)
+            keys.append(v.key)
             v.key.is_on_boundary = self.fun_is_on_boundary(v.key)
+        self.cell_dofs[abs_cell_idx] = keys
         return local_fun_sp
 
     # COUNT FUNCTIONS ########################################################
-- 
2.43.0


From 5efa8b6f971aa5892c9f3ac4ae39195a922db2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:17 +0000
Subject: [PATCH 13/46] fix: get_solution never returns the solution of a
 system assembled earlier

---
 puncturedfem/solver/solver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/puncturedfem/solver/solver.py b/puncturedfem/solver/solver.py
index b4c6f8e..742f298 100644
--- a/puncturedfem/solver/solver.py
+++ b/puncturedfem/solver/solver.py
@@ -66,7 +66,7 @@ class Solver:
     rhs_vals: list[float]
     num_funs: int
     local_function_spaces: list[Optional[LocalFunctionSpace]]
-    soln: np.ndarray
+    soln: Optional[np.ndarray]
 
     def __init__(
         self,
@@ -173,6 +173,8 @@ class Solver:
         compute_interior_gradient : bool, optional
             Compute interior gradient values, by default False
         """
+        # a solution found earlier does not belong to the new system
+        self.soln = None
         self._build_values_and_indexes(
             verbose=verbose,
             compute_interior_values=compute_interior_values,
-- 
2.43.0


From c76eb4822283cd0ba801524d695fb363405d2b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:42 +0000
Subject: [PATCH 14/46] fix: a cell traverses its edges in its own direction
 after a neighbour was sampled

---
 puncturedfem/locfun/nystrom.py      |  2 ++
 puncturedfem/mesh/cell.py           |  1 +
 puncturedfem/mesh/closed_contour.py | 18 ++++++++++++++++--
 puncturedfem/mesh/edge.py           | 26 ++++++++++++++++++--------
 4 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/puncturedfem/locfun/nystrom.py b/puncturedfem/locfun/nystrom.py
index bc9ca04..18c13af 100644
--- a/puncturedfem/locfun/nystrom.py
+++ b/puncturedfem/locfun/nystrom.py
@@ -187,6 +187,8 @@ class NystromSolver:
         """
         if not isinstance(K, MeshCell):
             raise TypeError("K must be a MeshCell")
+        for c in K.components:
+            c.orient_edges()
         self.K = K
 
     # SOLVERS ################################################################
diff --git a/puncturedfem/mesh/cell.py b/puncturedfem/mesh/cell.py
index 89afc08..f1de2ac 100644
--- a/puncturedfem/mesh/cell.py
+++ b/puncturedfem/mesh/cell.py
@@ -165,6 +165,7 @@ class MeshCell:
         """
         edges = []
         for c in self.components:
+            c.orient_edges()
             for e in c.edges:
                 edges.append(e)
         return edges
diff --git a/puncturedfem/mesh/closed_contour.py b/puncturedfem/mesh/closed_contour.py
index 163b01b..7242842 100644
--- a/puncturedfem/mesh/closed_contour.py
+++ b/puncturedfem/mesh/closed_contour.py
@@ -188,13 +188,23 @@ class ClosedContour:
         """
         for i in range(self.num_edges):
             self.edges[i].parameterize(quad_dict)
-            if self.edge_orients[i] == -1:
-                self.edges[i].reverse_orientation()
+        self.orient_edges()
         self.find_num_pts()
         self.find_local_vert_idx()
         self.find_closest_local_vertex_index()
         self.find_interior_point()
 
+    def orient_edges(self) -> None:
+        """
+        Traverse every sampled edge in the direction of the contour.
+
+        An edge shared with another cell is traversed in the opposite direction
+        whenever that cell is parameterized.
+        """
+        for e, orient in zip(self.edges, self.edge_orients):
+            if e.is_reversed != (orient == -1):
+                e.reverse_orientation()
+
     def deparameterize(self) -> None:
         """Delete the sampled points of the edges comprising the contour."""
         for e in self.edges:
@@ -433,6 +443,7 @@ class ClosedContour:
         """
         if not self.is_parameterized():
             raise NotParameterizedError("evaluating function on contour")
+        self.orient_edges()
         y = np.zeros((self.num_pts,))
         for j in range(self.num_edges):
             y[self.vert_idx[j] : self.vert_idx[j + 1]] = self.edges[
@@ -487,6 +498,7 @@ class ClosedContour:
         """
         if not self.is_parameterized():
             raise NotParameterizedError("dotting with tangent")
+        self.orient_edges()
         res = np.zeros((self.num_pts,))
         for i in range(self.num_edges):
             j = self.vert_idx[i]
@@ -523,6 +535,7 @@ class ClosedContour:
         """
         if not self.is_parameterized():
             raise NotParameterizedError("dotting with normal")
+        self.orient_edges()
         res = np.zeros((self.num_pts,))
         for i in range(self.num_edges):
             j = self.vert_idx[i]
@@ -559,6 +572,7 @@ class ClosedContour:
         """
         if not self.is_parameterized():
             raise NotParameterizedError("multiplying by dx_norm")
+        self.orient_edges()
         if len(vals) != self.num_pts:
             raise SizeMismatchError("vals must be same length as boundary")
         vals_dx_norm = np.zeros((self.num_pts,))
diff --git a/puncturedfem/mesh/edge.py b/puncturedfem/mesh/edge.py
index a17e3db..a6a9afa 100644
--- a/puncturedfem/mesh/edge.py
+++ b/puncturedfem/mesh/edge.py
@@ -66,6 +66,8 @@ class Edge:
         True if the Edge is a loop.
     is_parameterized : bool
         True if the Edge is parameterized.
+    is_reversed : bool
+        True if the sampled points run from the end of the curve to its start.
     num_pts : int
         The number of points sampled on the Edge.
     x : np.ndarray
@@ -92,6 +94,7 @@ class Edge:
     is_on_mesh_boundary: bool
     is_loop: bool
     is_parameterized: bool
+    is_reversed: bool
     num_pts: int
     x: np.ndarray
     unit_tangent: np.ndarray
@@ -144,6 +147,7 @@ class Edge:
         self.set_verts(anchor, endpnt)
         self.set_cells(pos_cell_idx, neg_cell_idx)
         self.is_parameterized = False
+        self.is_reversed = False
         self.num_pts = -1
 
     def __str__(self) -> str:
@@ -299,6 +303,7 @@ class Edge:
 
         # points on the boundary
         self.x = gamma.X(t, **self.curve_opts)
+        self.is_reversed = False
 
         # unweighted square norm of derivative
         dx = dt * gamma.DX(t, **self.curve_opts)
@@ -340,6 +345,7 @@ class Edge:
         self.dx_norm = np.zeros((0,))
         self.curvature = np.zeros((0,))
         self.is_parameterized = False
+        self.is_reversed = False
 
     def get_sampled_points(
         self, ignore_endpoint: bool = True
@@ -507,14 +513,18 @@ class Edge:
         """
         # apply to sampled points
         if self.is_parameterized:
-            # vector quantities
-            self.x = np.fliplr(self.x)
-            self.unit_tangent = -np.fliplr(self.unit_tangent)
-            self.unit_normal = -np.fliplr(self.unit_normal)
-
-            # scalar quantities
-            self.dx_norm = np.flip(self.dx_norm)
-            self.curvature = -np.flip(self.curvature)
+            # replace all quantities at once, since cells restore the
+            # orientation of their edges while they are being used
+            self.__dict__.update(
+                # vector quantities
+                x=np.fliplr(self.x),
+                unit_tangent=-np.fliplr(self.unit_tangent),
+                unit_normal=-np.fliplr(self.unit_normal),
+                # scalar quantities
+                dx_norm=np.flip(self.dx_norm),
+                curvature=-np.flip(self.curvature),
+                is_reversed=not self.is_reversed,
+            )
 
     def translate(self, a: Vert, write_diary: bool = True) -> None:
         """
-- 
2.43.0


From 67c5a5f803bf1a6f9363f22aa10e26a17060e8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:42 +0000
Subject: [PATCH 15/46] fix: match vertex functions and vertices on a reversed
 edge

---
 puncturedfem/locfun/edge_space.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/puncturedfem/locfun/edge_space.py b/puncturedfem/locfun/edge_space.py
index 3f87b20..e4a2191 100644
--- a/puncturedfem/locfun/edge_space.py
+++ b/puncturedfem/locfun/edge_space.py
@@ -123,7 +123,11 @@ class EdgeSpace:
         self.vert_fun_global_keys = []
         if self.e.is_loop:
             return
-        for k in [self.e.anchor.idx, self.e.endpnt.idx]:
+        # in the order of the sampled points, like the vertex functions
+        vert_idx = [self.e.anchor.idx, self.e.endpnt.idx]
+        if self.e.is_reversed:
+            vert_idx.reverse()
+        for k in vert_idx:
             self.vert_fun_global_keys.append(GlobalKey("vert", vert_idx=k))
 
     def generate_edge_fun_global_keys(self) -> None:
-- 
2.43.0


From 351e80bbf4c9f0d971c6523e2725b6676ff4f1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:09 +0000
Subject: [PATCH 16/46] fix: an interrupted assembly does not mix the matrix
 and right-hand side of two problems

---
 puncturedfem/solver/solver.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/puncturedfem/solver/solver.py b/puncturedfem/solver/solver.py
index 742f298..c39703b 100644
--- a/puncturedfem/solver/solver.py
+++ b/puncturedfem/solver/solver.py
@@ -340,14 +340,17 @@ class Solver:
             )
 
     def _build_matrix_and_rhs(self) -> None:
-        self.glob_mat = csr_matrix(
+        glob_mat = csr_matrix(
             (self.mat_vals, (self.row_idx, self.col_idx)),
             shape=(self.num_funs, self.num_funs),
         )
-        self.glob_rhs = csr_matrix(
+        glob_rhs = csr_matrix(
             (self.rhs_vals, (self.rhs_idx, [0] * len(self.rhs_idx))),
             shape=(self.num_funs, 1),
         )
+        # replace both together, since the matrix of one problem and the
+        # right-hand side of another make no sense if this is interrupted
+        self.glob_mat, self.glob_rhs = glob_mat, glob_rhs
 
     def build_stiffness_matrix(self) -> None:
         """
-- 
2.43.0


From b8a387ec86dbc8a9e866b03412bdea9bbb788bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:37 +0000
Subject: [PATCH 17/46] fix: an interrupted evaluation of interior values
 leaves no partial sums

---
 puncturedfem/locfun/local_poisson.py | 43 ++++++++++++++++------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/puncturedfem/locfun/local_poisson.py b/puncturedfem/locfun/local_poisson.py
index 9470389..26f751f 100644
--- a/puncturedfem/locfun/local_poisson.py
+++ b/puncturedfem/locfun/local_poisson.py
@@ -343,30 +343,30 @@ class LocalPoissonFunction:
 
         # initialize temporary arrays
         N = len(y1)
-        self.int_vals = np.zeros((N,))
-        self.int_grad1 = np.zeros((N,))
-        self.int_grad2 = np.zeros((N,))
+        int_vals = np.zeros((N,))
+        int_grad1 = np.zeros((N,))
+        int_grad2 = np.zeros((N,))
 
         # polynomial part
-        int_vals = self.poly.exact_form(y1, y2)
-        if not isinstance(int_vals, np.ndarray):
+        poly_vals = self.poly.exact_form(y1, y2)
+        if not isinstance(poly_vals, np.ndarray):
             raise TypeError("The polynomial part must be a numpy array")
-        self.int_vals += int_vals
+        int_vals += poly_vals
 
         # gradient Polynomial part
         if compute_int_grad:
-            int_grad1 = self.poly.grad1(y1, y2)
-            int_grad2 = self.poly.grad2(y1, y2)
-            if not isinstance(int_grad1, np.ndarray):
+            poly_grad1 = self.poly.grad1(y1, y2)
+            poly_grad2 = self.poly.grad2(y1, y2)
+            if not isinstance(poly_grad1, np.ndarray):
                 raise TypeError(
                     "The gradient of the polynomial part must be a numpy array"
                 )
-            if not isinstance(int_grad2, np.ndarray):
+            if not isinstance(poly_grad2, np.ndarray):
                 raise TypeError(
                     "The gradient of the polynomial part must be a numpy array"
                 )
-            self.int_grad1 += int_grad1
-            self.int_grad2 += int_grad2
+            int_grad1 += poly_grad1
+            int_grad2 += poly_grad2
 
         # logarithmic part
         for k in range(self.mesh_cell.num_holes):
@@ -374,10 +374,10 @@ class LocalPoissonFunction:
             y_xi_1 = y1 - xi.x
             y_xi_2 = y2 - xi.y
             y_xi_norm_sq = y_xi_1**2 + y_xi_2**2
-            self.int_vals += 0.5 * self.harm.log_coef[k] * np.log(y_xi_norm_sq)
+            int_vals += 0.5 * self.harm.log_coef[k] * np.log(y_xi_norm_sq)
             if compute_int_grad:
-                self.int_grad1 += self.harm.log_coef[k] * y_xi_1 / y_xi_norm_sq
-                self.int_grad2 += self.harm.log_coef[k] * y_xi_2 / y_xi_norm_sq
+                int_grad1 += self.harm.log_coef[k] * y_xi_1 / y_xi_norm_sq
+                int_grad2 += self.harm.log_coef[k] * y_xi_2 / y_xi_norm_sq
 
         # conjugable part
         psi = self.harm.psi.values
@@ -414,7 +414,14 @@ class LocalPoissonFunction:
 
         # interior values and gradient of conjugable part via Cauchy's
         # integral formula
-        self.int_vals += np.sum(dx_norm * f, axis=1) * 0.5 / np.pi
+        int_vals += np.sum(dx_norm * f, axis=1) * 0.5 / np.pi
         if compute_int_grad:
-            self.int_grad1 += np.sum(dx_norm * g1, axis=1) * 0.5 / np.pi
-            self.int_grad2 += np.sum(dx_norm * g2, axis=1) * 0.5 / np.pi
+            int_grad1 += np.sum(dx_norm * g1, axis=1) * 0.5 / np.pi
+            int_grad2 += np.sum(dx_norm * g2, axis=1) * 0.5 / np.pi
+
+        # an interrupted evaluation must not leave partial sums behind
+        self.int_vals, self.int_grad1, self.int_grad2 = (
+            int_vals,
+            int_grad1,
+            int_grad2,
+        )
-- 
2.43.0


From a5e0cfffd0089bd777e51f7ba9ecfa9d0d32e0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:37 +0000
Subject: [PATCH 18/46] fix: a gradient that was not computed is not stored as
 zero

---
 puncturedfem/locfun/local_poisson.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/puncturedfem/locfun/local_poisson.py b/puncturedfem/locfun/local_poisson.py
index 26f751f..77fbb1a 100644
--- a/puncturedfem/locfun/local_poisson.py
+++ b/puncturedfem/locfun/local_poisson.py
@@ -420,8 +420,11 @@ class LocalPoissonFunction:
             int_grad2 += np.sum(dx_norm * g2, axis=1) * 0.5 / np.pi
 
         # an interrupted evaluation must not leave partial sums behind
-        self.int_vals, self.int_grad1, self.int_grad2 = (
-            int_vals,
-            int_grad1,
-            int_grad2,
-        )
+        if compute_int_grad:
+            self.int_vals, self.int_grad1, self.int_grad2 = (
+                int_vals,
+                int_grad1,
+                int_grad2,
+            )
+        else:
+            self.int_vals = int_vals
-- 
2.43.0


From 57a869c4f27eb6f6590c0a37808131afc587d337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:34 +0000
Subject: [PATCH 19/46] fix: a trace keeps its own lists of functions and edges

---
 puncturedfem/locfun/trace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/puncturedfem/locfun/trace.py b/puncturedfem/locfun/trace.py
index fbd1860..9d41fd7 100644
--- a/puncturedfem/locfun/trace.py
+++ b/puncturedfem/locfun/trace.py
@@ -222,7 +222,7 @@ class DirichletTrace:
         elif isinstance(edges, list):
             if not all(isinstance(edge, Edge) for edge in edges):
                 raise ValueError("All elements must be of type Edge")
-            self.edges = edges
+            self.edges = list(edges)
         else:
             raise ValueError("'edges' must be of type MeshCell or list[Edge]")
         self.num_edges = len(self.edges)
@@ -464,7 +464,7 @@ class DirichletTrace:
                 raise ValueError(
                     "The number of functions must match the number of edges"
                 )
-            self.funcs = funcs
+            self.funcs = list(funcs)
             if compute_vals and self.edges_are_parametrized():
                 self.find_values()
             return
-- 
2.43.0


From 2a793a63f81e07d7d6fdf785277820f14ed47533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:11 +0000
Subject: [PATCH 20/46] fix: printing a Polynomial does not interfere with
 other threads using it

---
 puncturedfem/locfun/poly/poly.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/puncturedfem/locfun/poly/poly.py b/puncturedfem/locfun/poly/poly.py
index 53c7b7d..9954443 100644
--- a/puncturedfem/locfun/poly/poly.py
+++ b/puncturedfem/locfun/poly/poly.py
@@ -430,11 +430,11 @@ class Polynomial:
         str
             String representation of the Polynomial.
         """
-        self.sort()
-        if len(self.monos) == 0:
+        monos = _sorted(self.monos)
+        if len(monos) == 0:
             return "+ (0) "
         msg = ""
-        for m in self.monos:
+        for m in monos:
             msg += m.__repr__()
         return msg
 
-- 
2.43.0


From d7ace024cdaae7afcbc382230fda9da0132ec0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:19 +0000
Subject: [PATCH 21/46] fix: save_figure accepts a bare file name and a
 directory created meanwhile

---
 puncturedfem/plot/plot_util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/puncturedfem/plot/plot_util.py b/puncturedfem/plot/plot_util.py
index 980cb6d..6f0ef2c 100644
--- a/puncturedfem/plot/plot_util.py
+++ b/puncturedfem/plot/plot_util.py
@@ -34,8 +34,9 @@ def save_figure(
     bbox_inches : str, optional
         The bounding box in inches. The default is "tight".
     """
-    if not os.path.exists(os.path.dirname(filename)):
-        os.makedirs(os.path.dirname(filename))
+    dirname = os.path.dirname(filename)
+    if dirname:
+        os.makedirs(dirname, exist_ok=True)
     plt.savefig(filename, dpi=dpi, bbox_inches=bbox_inches)
 
 
-- 
2.43.0


From 361611f0f22e1587c48b580ab036bed623d4e494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:19 +0000
Subject: [PATCH 22/46] fix: TracePlot plots a DirichletTrace once

---
 puncturedfem/plot/trace_plot.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/puncturedfem/plot/trace_plot.py b/puncturedfem/plot/trace_plot.py
index fe467e5..b677395 100644
--- a/puncturedfem/plot/trace_plot.py
+++ b/puncturedfem/plot/trace_plot.py
@@ -167,7 +167,6 @@ class TracePlot:
         self.traces = []
         for f in traces:
             if isinstance(f, DirichletTrace):
-                self.traces.append(f.values)
                 f = f.values
             if not isinstance(f, np.ndarray):
                 raise TypeError(
-- 
2.43.0


From fc057736f27b6e077425641e3e2693210692eacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:19 +0000
Subject: [PATCH 23/46] fix: a logarithmic plot leaves the values of the
 function alone

---
 puncturedfem/plot/locfun_plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/puncturedfem/plot/locfun_plot.py b/puncturedfem/plot/locfun_plot.py
index 86f8137..22da76a 100644
--- a/puncturedfem/plot/locfun_plot.py
+++ b/puncturedfem/plot/locfun_plot.py
@@ -250,8 +250,8 @@ class LocalFunctionPlot:
 
         # apply log10
         if use_log10:
-            vals[vals < 1e-16] = 1e-16
-            vals = np.log10(vals)
+            # work on a copy, vals may be the values of the function itself
+            vals = np.log10(np.where(vals < 1e-16, 1e-16, vals))
 
         # plot values
         self._apply_masks_and_draw(vals, fill, levels, clim)
-- 
2.43.0


From e8f9839871a765307e18ff47ee0354e0b9a270e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:19 +0000
Subject: [PATCH 24/46] fix: an interrupted gradient plot restores
 floating-point error handling

---
 puncturedfem/plot/locfun_plot.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/puncturedfem/plot/locfun_plot.py b/puncturedfem/plot/locfun_plot.py
index 22da76a..ec26689 100644
--- a/puncturedfem/plot/locfun_plot.py
+++ b/puncturedfem/plot/locfun_plot.py
@@ -390,9 +390,8 @@ def _construct_gradient_component_on_boundary(
     wtd = v.harm.trace.w_tang_deriv + v.poly.trace.w_tang_deriv
     weighted_grad = norm_comp * wnd + tang_comp * wtd
     wgt = v.mesh_cell.get_dx_norm()
-    error_settings = np.seterr(divide="ignore")
-    grad_xj = weighted_grad / wgt
-    np.seterr(**error_settings)
+    with np.errstate(divide="ignore"):
+        grad_xj = weighted_grad / wgt
     grad_xj[wgt < TOL] = np.nan
     grad_xj[grad_xj > MAX_GRAD] = np.nan
     return grad_xj
-- 
2.43.0


From e6b6f111b432a86f9702ff7b5964a130b142b21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:19 +0000
Subject: [PATCH 25/46] fix: the colormap of one plot does not become the
 default of all

---
 puncturedfem/plot/locfun_plot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/puncturedfem/plot/locfun_plot.py b/puncturedfem/plot/locfun_plot.py
index ec26689..25d7d59 100644
--- a/puncturedfem/plot/locfun_plot.py
+++ b/puncturedfem/plot/locfun_plot.py
@@ -337,7 +337,10 @@ class LocalFunctionPlot:
 
         # set colormap
         if colormap is not None:
-            plt.set_cmap(colormap)
+            # plt.set_cmap would also change the default for all later plots
+            image = plt.gci()
+            if image is not None:
+                image.set_cmap(colormap)
 
         # set colorbar
         if show_colorbar:
-- 
2.43.0


From 17f4de4baeb2d99fba279b7830a0f953d92bbe1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:45 +0000
Subject: [PATCH 26/46] fix: plotting a function leaves the triangulation of
 its cell alone

---
 puncturedfem/plot/locfun_plot.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/puncturedfem/plot/locfun_plot.py b/puncturedfem/plot/locfun_plot.py
index 25d7d59..74cf50f 100644
--- a/puncturedfem/plot/locfun_plot.py
+++ b/puncturedfem/plot/locfun_plot.py
@@ -17,6 +17,7 @@ from typing import Any, Optional
 
 import matplotlib.pyplot as plt
 import numpy as np
+from matplotlib import tri
 
 # from matplotlib.path import Path
 from mpl_toolkits.axes_grid1 import make_axes_locatable
@@ -254,11 +255,11 @@ class LocalFunctionPlot:
             vals = np.log10(np.where(vals < 1e-16, 1e-16, vals))
 
         # plot values
-        self._apply_masks_and_draw(vals, fill, levels, clim)
+        triangulation = self._apply_masks_and_draw(vals, fill, levels, clim)
 
         # plot mesh
         if show_triangulation:
-            plt.triplot(self.v.mesh_cell.triangulation, "-k")
+            plt.triplot(triangulation, "-k")
 
         # axis and shape
         plt.axis("equal")
@@ -289,7 +290,7 @@ class LocalFunctionPlot:
         fill: bool,
         levels: int,
         clim: Optional[tuple[float, float]],
-    ) -> None:
+    ) -> tri.Triangulation:
 
         # find inf and nan values
         pointwise_mask = np.logical_not(np.isfinite(vals))
@@ -306,23 +307,26 @@ class LocalFunctionPlot:
         if not self.use_interp:
             mask[self.v.mesh_cell.boundary_mask] = True
 
-        # apply mask
-        self.v.mesh_cell.triangulation.set_mask(mask)
+        # apply mask to a copy, the triangulation belongs to the cell
+        triangulation = tri.Triangulation(
+            self.v.mesh_cell.triangulation.x,
+            self.v.mesh_cell.triangulation.y,
+            triangles=self.v.mesh_cell.triangulation.triangles,
+            mask=mask,
+        )
 
         # plot interior values
         if fill:
-            contour = plt.tricontourf(
-                self.v.mesh_cell.triangulation, vals, levels=levels
-            )
+            contour = plt.tricontourf(triangulation, vals, levels=levels)
         else:
-            contour = plt.tricontour(
-                self.v.mesh_cell.triangulation, vals, levels=levels
-            )
+            contour = plt.tricontour(triangulation, vals, levels=levels)
 
         # set color limits
         if clim is not None:
             contour.set_clim(clim)
 
+        return triangulation
+
     def _plot_edges(self) -> None:
         for edge in self.v.mesh_cell.get_edges():
             plt.plot(*edge.get_sampled_points(ignore_endpoint=False), "-k")
-- 
2.43.0


From f07c86b376685a046f347433dc8acd6eaeec5939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:43 +0000
Subject: [PATCH 27/46] fix: a draw that fails or is interrupted closes the
 figure it created

---
 puncturedfem/plot/globfun_plot.py | 129 +++++++++++++++---------------
 puncturedfem/plot/locfun_plot.py  | 109 +++++++++++++------------
 puncturedfem/plot/mesh_plot.py    |  33 ++++----
 puncturedfem/plot/trace_plot.py   |  27 ++++---
 4 files changed, 160 insertions(+), 138 deletions(-)

diff --git a/puncturedfem/plot/globfun_plot.py b/puncturedfem/plot/globfun_plot.py
index 7c90331..ce1255c 100644
--- a/puncturedfem/plot/globfun_plot.py
+++ b/puncturedfem/plot/globfun_plot.py
@@ -185,77 +185,80 @@ class GlobalFunctionPlot:
         w, h = get_figure_size(min_x, max_x, min_y, max_y)
 
         # get figure object
-        fig = plt.figure(figsize=(w, h))
-
-        # determine global range
-        if plot_type == "values":
-            global_min, global_max = self.global_range
-        elif plot_type == "grad_x1":
-            global_min, global_max = self.global_grad1_range
-        elif plot_type == "grad_x2":
-            global_min, global_max = self.global_grad2_range
-        elif plot_type == "grad_norm":
-            global_min, global_max = self.global_grad_norm_range
-        else:
-            raise ValueError(
-                "plot_type must be 'values', 'grad_x1', 'grad_x2', or "
-                + f"grad_norm', not '{plot_type}'"
-            )
+        fig = None
+        try:
+            fig = plt.figure(figsize=(w, h))
+
+            # determine global range
+            if plot_type == "values":
+                global_min, global_max = self.global_range
+            elif plot_type == "grad_x1":
+                global_min, global_max = self.global_grad1_range
+            elif plot_type == "grad_x2":
+                global_min, global_max = self.global_grad2_range
+            elif plot_type == "grad_norm":
+                global_min, global_max = self.global_grad_norm_range
+            else:
+                raise ValueError(
+                    "plot_type must be 'values', 'grad_x1', 'grad_x2', or "
+                    + f"grad_norm', not '{plot_type}'"
+                )
 
-        # plot linear combination on each MeshCell
-        for local_fun in self.global_function:
-
-            # plot local function
-            plot = LocalFunctionPlot(local_fun, use_interp)
-            plot.draw(
-                plot_type=plot_type,
-                fill=fill,
-                new_figure=False,
-                close_plot=False,
-                show_plot=False,
-                fig_handle=fig,
-                show_colorbar=False,
-                show_triangulation=False,
-                show_axis=False,
-                show_boundary=False,
-                clim=(global_min, global_max),
-            )
+            # plot linear combination on each MeshCell
+            for local_fun in self.global_function:
+
+                # plot local function
+                plot = LocalFunctionPlot(local_fun, use_interp)
+                plot.draw(
+                    plot_type=plot_type,
+                    fill=fill,
+                    new_figure=False,
+                    close_plot=False,
+                    show_plot=False,
+                    fig_handle=fig,
+                    show_colorbar=False,
+                    show_triangulation=False,
+                    show_axis=False,
+                    show_boundary=False,
+                    clim=(global_min, global_max),
+                )
 
-        # plot mesh edges
-        for e in self.solver.glob_fun_sp.mesh.edges:
-            plt.plot(e.x[0, :], e.x[1, :], "k")
+            # plot mesh edges
+            for e in self.solver.glob_fun_sp.mesh.edges:
+                plt.plot(e.x[0, :], e.x[1, :], "k")
 
-        if fill and show_colorbar:
-            sm = ScalarMappable(
-                norm=plt.Normalize(vmin=global_min, vmax=global_max),
-                cmap=colormap,
-            )
-            plt.colorbar(
-                mappable=sm,
-                ax=plt.gca(),
-                fraction=0.046,
-                pad=0.04,
-            )
+            if fill and show_colorbar:
+                sm = ScalarMappable(
+                    norm=plt.Normalize(vmin=global_min, vmax=global_max),
+                    cmap=colormap,
+                )
+                plt.colorbar(
+                    mappable=sm,
+                    ax=plt.gca(),
+                    fraction=0.046,
+                    pad=0.04,
+                )
 
-        plt.axis("equal")
-        plt.gca().set_aspect("equal")
-        plt.subplots_adjust(
-            left=0.0, right=1.0, bottom=0.0, top=1.0, wspace=0.0, hspace=0.0
-        )
-        if not show_axis:
-            plt.axis("off")
+            plt.axis("equal")
+            plt.gca().set_aspect("equal")
+            plt.subplots_adjust(
+                left=0.0, right=1.0, bottom=0.0, top=1.0, wspace=0.0, hspace=0.0
+            )
+            if not show_axis:
+                plt.axis("off")
 
-        if len(title) > 0:
-            plt.title(title)
+            if len(title) > 0:
+                plt.title(title)
 
-        if save_fig:
-            save_figure(filename)
+            if save_fig:
+                save_figure(filename)
 
-        if show_plot:
-            plt.show()
+            if show_plot:
+                plt.show()
 
-        if show_plot or save_fig:
-            plt.close()
+        finally:
+            if fig is not None:
+                plt.close(fig)
 
 
 def _range_on_cell(
diff --git a/puncturedfem/plot/locfun_plot.py b/puncturedfem/plot/locfun_plot.py
index 74cf50f..c077241 100644
--- a/puncturedfem/plot/locfun_plot.py
+++ b/puncturedfem/plot/locfun_plot.py
@@ -227,62 +227,71 @@ class LocalFunctionPlot:
         clim = kwargs.get("clim", None)
         use_log10 = kwargs.get("use_log10", False)
 
-        # create new figure if necessary
-        if new_figure and fig_handle is None:
-            min_x, max_x, min_y, max_y = get_axis_limits(
-                self.v.mesh_cell.get_edges()
+        created = None
+        try:
+            # create new figure if necessary
+            if new_figure and fig_handle is None:
+                min_x, max_x, min_y, max_y = get_axis_limits(
+                    self.v.mesh_cell.get_edges()
+                )
+                w, h = get_figure_size(min_x, max_x, min_y, max_y)
+                created = plt.figure(figsize=(w, h))
+                fig_handle = created
+
+            # use the provided figure handle
+            if fig_handle is not None:
+                plt.figure(fig_handle.number)
+
+            # concatenate interior and boundary values
+            if interior_values is None:
+                raise NotImplementedError(
+                    "Skeleton plotting is not yet implemented."
+                )
+            if self.use_interp and boundary_values is not None:
+                vals = np.concatenate((interior_values, boundary_values))
+            else:
+                vals = interior_values
+
+            # apply log10
+            if use_log10:
+                # work on a copy, vals may be the values of the function itself
+                vals = np.log10(np.where(vals < 1e-16, 1e-16, vals))
+
+            # plot values
+            triangulation = self._apply_masks_and_draw(vals, fill, levels, clim)
+
+            # plot mesh
+            if show_triangulation:
+                plt.triplot(triangulation, "-k")
+
+            # axis and shape
+            plt.axis("equal")
+            plt.gca().set_aspect("equal")
+            plt.subplots_adjust(
+                left=0.0, right=1.0, bottom=0.0, top=1.0, wspace=0.0, hspace=0.0
             )
-            w, h = get_figure_size(min_x, max_x, min_y, max_y)
-            fig_handle = plt.figure(figsize=(w, h))
+            if not show_axis:
+                plt.axis("off")
 
-        # use the provided figure handle
-        if fig_handle is not None:
-            plt.figure(fig_handle.number)
+            # plot boundary
+            if show_boundary:
+                self._plot_edges()
 
-        # concatenate interior and boundary values
-        if interior_values is None:
-            raise NotImplementedError(
-                "Skeleton plotting is not yet implemented."
-            )
-        if self.use_interp and boundary_values is not None:
-            vals = np.concatenate((interior_values, boundary_values))
-        else:
-            vals = interior_values
-
-        # apply log10
-        if use_log10:
-            # work on a copy, vals may be the values of the function itself
-            vals = np.log10(np.where(vals < 1e-16, 1e-16, vals))
-
-        # plot values
-        triangulation = self._apply_masks_and_draw(vals, fill, levels, clim)
-
-        # plot mesh
-        if show_triangulation:
-            plt.triplot(triangulation, "-k")
-
-        # axis and shape
-        plt.axis("equal")
-        plt.gca().set_aspect("equal")
-        plt.subplots_adjust(
-            left=0.0, right=1.0, bottom=0.0, top=1.0, wspace=0.0, hspace=0.0
-        )
-        if not show_axis:
-            plt.axis("off")
-
-        # plot boundary
-        if show_boundary:
-            self._plot_edges()
+            # title, colormap, colorbar, axis
+            self._make_plot_extras(title, colormap, show_colorbar)
 
-        # title, colormap, colorbar, axis
-        self._make_plot_extras(title, colormap, show_colorbar)
+            # save or show plot
+            self._output_plot(show_plot, filename)
 
-        # save or show plot
-        self._output_plot(show_plot, filename)
+            # close plot
+            if close_plot:
+                plt.close()
+            created = None
 
-        # close plot
-        if close_plot:
-            plt.close()
+        # a figure created here does not stay open if anything failed
+        finally:
+            if created is not None:
+                plt.close(created)
 
     def _apply_masks_and_draw(
         self,
diff --git a/puncturedfem/plot/mesh_plot.py b/puncturedfem/plot/mesh_plot.py
index cd43e7f..a44cc1f 100644
--- a/puncturedfem/plot/mesh_plot.py
+++ b/puncturedfem/plot/mesh_plot.py
@@ -116,20 +116,25 @@ class MeshPlot:
         w, h = get_figure_size(min_x, max_x, min_y, max_y)
 
         # create figure
-        plt.figure(figsize=(w, h))
-        self._plot_edges()
-        plt.axis((min_x, max_x, min_y, max_y))
-        plt.grid(self.show_grid)
-        if self.title:
-            plt.title(self.title)
-        if not self.show_axis:
-            plt.axis("off")
-        if filename:
-            save_figure(filename)
-        if show_plot:
-            plt.show()
-        if not self.keep_open:
-            plt.close()
+        fig = None
+        try:
+            fig = plt.figure(figsize=(w, h))
+            self._plot_edges()
+            plt.axis((min_x, max_x, min_y, max_y))
+            plt.grid(self.show_grid)
+            if self.title:
+                plt.title(self.title)
+            if not self.show_axis:
+                plt.axis("off")
+            if filename:
+                save_figure(filename)
+            if show_plot:
+                plt.show()
+            if self.keep_open:
+                fig = None
+        finally:
+            if fig is not None:
+                plt.close(fig)
 
     def set_edges(self, edges: list[Edge]) -> None:
         """
diff --git a/puncturedfem/plot/trace_plot.py b/puncturedfem/plot/trace_plot.py
index b677395..282943a 100644
--- a/puncturedfem/plot/trace_plot.py
+++ b/puncturedfem/plot/trace_plot.py
@@ -139,17 +139,22 @@ class TracePlot:
             The filename to save the plot to. The default is "", which results
             in no file being saved.
         """
-        self.fig_handle = plt.figure()
-        self._plot_traces()
-        self._make_legend(self.legend)
-        self._make_title(self.title)
-        self._make_axis_labels()
-        plt.grid(self.show_grid)
-        if filename:
-            save_figure(filename)
-        if show_plot:
-            plt.show()
-        plt.close()
+        fig = None
+        try:
+            fig = plt.figure()
+            self.fig_handle = fig
+            self._plot_traces()
+            self._make_legend(self.legend)
+            self._make_title(self.title)
+            self._make_axis_labels()
+            plt.grid(self.show_grid)
+            if filename:
+                save_figure(filename)
+            if show_plot:
+                plt.show()
+        finally:
+            if fig is not None:
+                plt.close(fig)
 
     def set_traces(self, traces: Union[TraceLike, list[TraceLike]]) -> None:
         """
-- 
2.43.0


From c996da9197972fa92e77064d4c63f9ad71a291d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:52 +0000
Subject: [PATCH 28/46] fix: a trace evaluates new functions in the direction
 its values were in

---
 puncturedfem/locfun/trace.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/puncturedfem/locfun/trace.py b/puncturedfem/locfun/trace.py
index 9d41fd7..66c033f 100644
--- a/puncturedfem/locfun/trace.py
+++ b/puncturedfem/locfun/trace.py
@@ -45,6 +45,8 @@ class DirichletTrace:
         The functions used to define the trace.
     edge_sampled_indices : list[tuple[int, int]]
         The start and end indices of the edges in the values array.
+    edges_reversed : Optional[list[bool]]
+        The orientation of the edges that the values belong to.
     """
 
     edges: list[Edge]
@@ -55,6 +57,7 @@ class DirichletTrace:
     w_tang_deriv: Optional[np.ndarray]
     funcs: list[Func_R2_R]
     edge_sampled_indices: list[tuple[int, int]]
+    edges_reversed: Optional[list[bool]]
 
     def __init__(
         self,
@@ -114,7 +117,7 @@ class DirichletTrace:
             raise ValueError("The other trace must be a DirichletTrace")
         if self.num_edges != other.num_edges:
             raise ValueError("The number of edges must be the same")
-        new = DirichletTrace(self.edges, custom=True)
+        new = self._new_on_same_edges()
         new.set_trace_values(self.values + other.values)
         if self.w_norm_deriv is not None and other.w_norm_deriv is not None:
             new.set_weighted_normal_derivative(
@@ -142,7 +145,7 @@ class DirichletTrace:
         """
         if not isinstance(other, (int, float)):
             raise ValueError("The scalar must be an int or float")
-        new = DirichletTrace(self.edges, custom=True)
+        new = self._new_on_same_edges()
         new.set_trace_values(self.values * other)
         if self.w_norm_deriv is not None:
             new.set_weighted_normal_derivative(self.w_norm_deriv * other)
@@ -184,7 +187,7 @@ class DirichletTrace:
             raise ValueError("The scalar must be an int or float")
         if other == 0:
             raise ValueError("The scalar must be non-zero")
-        new = DirichletTrace(self.edges, custom=True)
+        new = self._new_on_same_edges()
         new.set_trace_values(self.values / other)
         if self.w_norm_deriv is not None:
             new.set_weighted_normal_derivative(self.w_norm_deriv / other)
@@ -226,6 +229,18 @@ class DirichletTrace:
         else:
             raise ValueError("'edges' must be of type MeshCell or list[Edge]")
         self.num_edges = len(self.edges)
+        self.edges_reversed = None
+        if self.edges_are_parametrized():
+            self._record_orientation()
+
+    def _record_orientation(self) -> None:
+        # an edge shared by two cells is reversed whenever the other one is used
+        self.edges_reversed = [edge.is_reversed for edge in self.edges]
+
+    def _new_on_same_edges(self) -> DirichletTrace:
+        new = DirichletTrace(self.edges, custom=True)
+        new.edges_reversed = self.edges_reversed
+        return new
 
     def get_edge_sampled_point_indices(
         self, edge_index: int
@@ -568,7 +583,15 @@ class DirichletTrace:
             raise ValueError("All edges must be parametrized")
         self.find_num_pts()
         self.find_edge_sampled_indices()
+        if self.edges_reversed is None:
+            self._record_orientation()
         self.values = np.zeros(self.num_pts)
         for k, edge in enumerate(self.edges):
             start, end = self.edge_sampled_indices[k]
-            self.values[start:end] = edge.evaluate_function(self.funcs[k])
+            func = self.funcs[k]
+            if edge.is_reversed == self.edges_reversed[k]:
+                vals = edge.evaluate_function(func)
+            else:
+                vals = edge.evaluate_function(func, ignore_endpoint=False)
+                vals = np.flip(vals[1:])
+            self.values[start:end] = vals
-- 
2.43.0


From b6319ee8c8a9ad1467513618285f8e65a92a5780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:11 +0000
Subject: [PATCH 29/46] fix: a solution is plotted though its gradient was not
 computed

---
 puncturedfem/plot/globfun_plot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/puncturedfem/plot/globfun_plot.py b/puncturedfem/plot/globfun_plot.py
index ce1255c..a3f219f 100644
--- a/puncturedfem/plot/globfun_plot.py
+++ b/puncturedfem/plot/globfun_plot.py
@@ -117,6 +117,9 @@ class GlobalFunctionPlot:
             self.global_range = _range_on_cell(
                 local_fun.int_vals, self.global_range[0], self.global_range[1]
             )
+            if local_fun.int_grad1 is None or local_fun.int_grad2 is None:
+                # not needed to plot the values
+                continue
             self.global_grad1_range = _range_on_cell(
                 local_fun.int_grad1,
                 self.global_grad1_range[0],
@@ -127,8 +130,6 @@ class GlobalFunctionPlot:
                 self.global_grad2_range[0],
                 self.global_grad2_range[1],
             )
-            if local_fun.int_grad1 is None or local_fun.int_grad2 is None:
-                raise ValueError("int_grad1 and int_grad2 must both be set")
             grad_norm = np.sqrt(local_fun.int_grad1**2 + local_fun.int_grad2**2)
             self.global_grad_norm_range = _range_on_cell(
                 grad_norm,
-- 
2.43.0


From ffdd12f478d14f27684767c3b66c3ac12839d319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:03 +0000
Subject: [PATCH 30/46] fix: a solver given another space forgets the local
 spaces of the previous one

---
 puncturedfem/solver/solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/puncturedfem/solver/solver.py b/puncturedfem/solver/solver.py
index c39703b..9343ef5 100644
--- a/puncturedfem/solver/solver.py
+++ b/puncturedfem/solver/solver.py
@@ -119,6 +119,10 @@ class Solver:
         """
         if not isinstance(glob_fun_sp, GlobalFunctionSpace):
             raise TypeError("glob_fun_sp must be a GlobalFunctionSpace")
+        # local spaces built before belong to the previous global space
+        self.local_function_spaces = [
+            None for _ in range(glob_fun_sp.mesh.num_cells)
+        ]
         self.glob_fun_sp = glob_fun_sp
 
     def set_bilinear_form(self, bilinear_form: BilinearForm) -> None:
-- 
2.43.0


From 15a111c2d99f42aa3960ab9ccd86b9d36d86291d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:03 +0000
Subject: [PATCH 31/46] fix: record a copy of the vector passed to translate

---
 puncturedfem/mesh/edge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puncturedfem/mesh/edge.py b/puncturedfem/mesh/edge.py
index a6a9afa..851fae1 100644
--- a/puncturedfem/mesh/edge.py
+++ b/puncturedfem/mesh/edge.py
@@ -539,7 +539,7 @@ class Edge:
         """
         # record in transformation diary
         if write_diary:
-            self.diary.append(("translate", (a,)))
+            self.diary.append(("translate", (Vert(x=a.x, y=a.y),)))
 
         # apply to sampled points
         if self.is_parameterized:
-- 
2.43.0


From eca892b148b83e3e86a6e0725cda506710764569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:03 +0000
Subject: [PATCH 32/46] fix: dot products along an edge with its endpoint
 included

---
 puncturedfem/mesh/edge.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/puncturedfem/mesh/edge.py b/puncturedfem/mesh/edge.py
index 851fae1..df1a3ba 100644
--- a/puncturedfem/mesh/edge.py
+++ b/puncturedfem/mesh/edge.py
@@ -716,8 +716,8 @@ class Edge:
         if len(comp1) != self.num_pts - k or len(comp2) != self.num_pts - k:
             raise SizeMismatchError("vals must be same length as boundary")
         return (
-            comp1 * self.unit_tangent[0, :-k]
-            + comp2 * self.unit_tangent[1, :-k]
+            comp1 * self.unit_tangent[0, : self.num_pts - k]
+            + comp2 * self.unit_tangent[1, : self.num_pts - k]
         )
 
     def dot_with_normal(
@@ -750,7 +750,8 @@ class Edge:
         if len(comp1) != self.num_pts - k or len(comp2) != self.num_pts - k:
             raise SizeMismatchError("vals must be same length as boundary")
         return (
-            comp1 * self.unit_normal[0, :-k] + comp2 * self.unit_normal[1, :-k]
+            comp1 * self.unit_normal[0, : self.num_pts - k]
+            + comp2 * self.unit_normal[1, : self.num_pts - k]
         )
 
     # INTEGRATION ############################################################
-- 
2.43.0


From e543cc48d8863a393dddffd9b0c1dd2aacdb5cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:03 +0000
Subject: [PATCH 33/46] fix: the integral over an edge without its endpoint
 uses every given value

---
 puncturedfem/mesh/edge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puncturedfem/mesh/edge.py b/puncturedfem/mesh/edge.py
index df1a3ba..d9e1440 100644
--- a/puncturedfem/mesh/edge.py
+++ b/puncturedfem/mesh/edge.py
@@ -808,7 +808,7 @@ class Edge:
             # left Riemann sum
             if len(vals_dx_norm) != self.num_pts - 1:
                 raise SizeMismatchError("vals must be same length as Edge")
-            res = np.sum(h * vals_dx_norm[:-1])
+            res = np.sum(h * vals_dx_norm)
         else:
             # trapezoidal rule
             if len(vals_dx_norm) != self.num_pts:
-- 
2.43.0


From 815b8cb5d1b814d168e8789432a95817d5fe6f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:03 +0000
Subject: [PATCH 34/46] fix: interior points on a grid with different numbers
 of rows and columns

---
 puncturedfem/mesh/cell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/puncturedfem/mesh/cell.py b/puncturedfem/mesh/cell.py
index f1de2ac..c8aa139 100644
--- a/puncturedfem/mesh/cell.py
+++ b/puncturedfem/mesh/cell.py
@@ -501,8 +501,8 @@ class MeshCell:
         xmin, xmax, ymin, ymax = self.get_bounding_box()
 
         # set up grid
-        x_coord = np.linspace(xmin, xmax, rows)
-        y_coord = np.linspace(ymin, ymax, cols)
+        x_coord = np.linspace(xmin, xmax, cols)
+        y_coord = np.linspace(ymin, ymax, rows)
         self.int_x1, self.int_x2 = np.meshgrid(x_coord, y_coord)
 
         # determine which points are inside K
-- 
2.43.0


From 4467a69dbb42f9a3b6ce7214b1b0e54e32fee1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:28 +0000
Subject: [PATCH 35/46] fix: plot a function without its boundary values

---
 puncturedfem/plot/locfun_plot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/puncturedfem/plot/locfun_plot.py b/puncturedfem/plot/locfun_plot.py
index c077241..b0468b1 100644
--- a/puncturedfem/plot/locfun_plot.py
+++ b/puncturedfem/plot/locfun_plot.py
@@ -250,7 +250,9 @@ class LocalFunctionPlot:
             if self.use_interp and boundary_values is not None:
                 vals = np.concatenate((interior_values, boundary_values))
             else:
-                vals = interior_values
+                # the triangulation has the boundary points, too
+                skipped = np.full((self.v.mesh_cell.num_pts,), np.nan)
+                vals = np.concatenate((interior_values, skipped))
 
             # apply log10
             if use_log10:
-- 
2.43.0


From 829471d7f3330c2ceaa445ba41431d690f7d8fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:28 +0000
Subject: [PATCH 36/46] fix: set the functions of a trace from polynomials

---
 puncturedfem/locfun/trace.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/puncturedfem/locfun/trace.py b/puncturedfem/locfun/trace.py
index 66c033f..0f8ee55 100644
--- a/puncturedfem/locfun/trace.py
+++ b/puncturedfem/locfun/trace.py
@@ -523,12 +523,13 @@ class DirichletTrace:
             The polynomials used to define the trace.
         """
         if isinstance(polys, Polynomial):
-            self.set_funcs(polys.eval)  # type: ignore
+            self.set_funcs(polys)
+            return
         if not isinstance(polys, list):
             raise ValueError("'polys' must be of type list[Polynomial]")
         if not all(isinstance(poly, Polynomial) for poly in polys):
             raise ValueError("All elements must be of type Polynomial")
-        self.set_funcs([poly.eval for poly in polys])  # type: ignore
+        self.set_funcs(list(polys))
 
     def edges_are_parametrized(self) -> bool:
         """
-- 
2.43.0


From 086e101da70bd0a95b78a2cc2a9dde87b4103d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:28 +0000
Subject: [PATCH 37/46] fix: a function with small coefficients is not replaced
 by zero

---
 puncturedfem/solver/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puncturedfem/solver/solver.py b/puncturedfem/solver/solver.py
index 9343ef5..f6077d7 100644
--- a/puncturedfem/solver/solver.py
+++ b/puncturedfem/solver/solver.py
@@ -400,7 +400,7 @@ class Solver:
         local_coef = self.get_coef_on_mesh_cell(cell_idx, global_coef)
         w = LocalPoissonFunction(nyst=loc_fun_sp.nyst, evaluate_gradient=True)
         for i, v in enumerate(loc_fun_sp.get_basis()):
-            if abs(local_coef[i]) < 1e-4:  # only needs to look good
+            if local_coef[i] == 0:
                 continue
             w += v * local_coef[i]
         return w
-- 
2.43.0


From 44f7f67be957b4a11d9410199aee1feae3bc07d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:28 +0000
Subject: [PATCH 38/46] fix: a solution is plotted in the colors of its color
 bar

---
 puncturedfem/plot/globfun_plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/puncturedfem/plot/globfun_plot.py b/puncturedfem/plot/globfun_plot.py
index a3f219f..9ec1282 100644
--- a/puncturedfem/plot/globfun_plot.py
+++ b/puncturedfem/plot/globfun_plot.py
@@ -221,6 +221,7 @@ class GlobalFunctionPlot:
                     show_triangulation=False,
                     show_axis=False,
                     show_boundary=False,
+                    colormap=colormap,
                     clim=(global_min, global_max),
                 )
 
-- 
2.43.0


From a85f3d7c8cb633538463181fcd7d6dfbc2767173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:28 +0000
Subject: [PATCH 39/46] fix: set_curve_type checks the new curve type

---
 puncturedfem/mesh/edge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puncturedfem/mesh/edge.py b/puncturedfem/mesh/edge.py
index d9e1440..7de8dc6 100644
--- a/puncturedfem/mesh/edge.py
+++ b/puncturedfem/mesh/edge.py
@@ -217,7 +217,7 @@ class Edge:
         if not isinstance(curve_type, str):
             raise ValueError("curve type must be a str")
         dirname = path.dirname(__file__)
-        filename = path.join(dirname, "edgelib/" + self.curve_type + ".py")
+        filename = path.join(dirname, "edgelib/" + curve_type + ".py")
         if not path.exists(filename):
             raise FileExistsError(filename + "does not exist")
         self.curve_type = curve_type
-- 
2.43.0


From 2c38db4e65a1ff03c23528ae918ef6689beff82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:43 +0000
Subject: [PATCH 40/46] fix: a triangle of interior points is not taken for one
 at the boundary

---
 puncturedfem/mesh/cell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puncturedfem/mesh/cell.py b/puncturedfem/mesh/cell.py
index c8aa139..f62b3c7 100644
--- a/puncturedfem/mesh/cell.py
+++ b/puncturedfem/mesh/cell.py
@@ -886,7 +886,7 @@ def _point_is_on_boundary_simple(
     path_y: np.ndarray,
 ) -> bool:
     # return true if the point is on the boundary
-    return point_x in path_x and point_y in path_y
+    return bool(np.any((path_x == point_x) & (path_y == point_y)))
 
 
 def _edge_is_on_boundary(
-- 
2.43.0


From b79e5d79d223a74c259b160c9d506ff9da89f78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:04 +0000
Subject: [PATCH 41/46] fix: a rejected edit leaves a trace as it was

---
 puncturedfem/locfun/trace.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/puncturedfem/locfun/trace.py b/puncturedfem/locfun/trace.py
index 0f8ee55..973762b 100644
--- a/puncturedfem/locfun/trace.py
+++ b/puncturedfem/locfun/trace.py
@@ -313,9 +313,14 @@ class DirichletTrace:
         self, values: Union[FloatLike, list[FloatLike]]
     ) -> list[FloatLike]:
         if isinstance(values, list):
-            for item in values:
+            if len(values) != self.num_edges:
+                raise ValueError(
+                    "The number of items must match the number of edges"
+                )
+            for item, (start, end) in zip(values, self.edge_sampled_indices):
                 if not isinstance(item, np.ndarray):
                     raise ValueError("item in list is not a numpy.ndarray")
+                self._validate_values_on_edge(item, end - start)
             return values
         if isinstance(values, (int, float)):
             return [values for _ in range(self.num_edges)]
@@ -479,9 +484,10 @@ class DirichletTrace:
                 raise ValueError(
                     "The number of functions must match the number of edges"
                 )
-            self.funcs = list(funcs)
+            funcs = list(funcs)
             if compute_vals and self.edges_are_parametrized():
-                self.find_values()
+                self.values = self._evaluate_funcs(funcs)
+            self.funcs = funcs
             return
         raise ValueError("'funcs' must be callable maps from R^2 to R")
 
@@ -582,17 +588,21 @@ class DirichletTrace:
             raise ValueError("The functions must be set before evaluating")
         if not self.edges_are_parametrized():
             raise ValueError("All edges must be parametrized")
+        self.values = self._evaluate_funcs(self.funcs)
+
+    def _evaluate_funcs(self, funcs: list[Func_R2_R]) -> np.ndarray:
         self.find_num_pts()
         self.find_edge_sampled_indices()
         if self.edges_reversed is None:
             self._record_orientation()
-        self.values = np.zeros(self.num_pts)
+        values = np.zeros(self.num_pts)
         for k, edge in enumerate(self.edges):
             start, end = self.edge_sampled_indices[k]
-            func = self.funcs[k]
+            func = funcs[k]
             if edge.is_reversed == self.edges_reversed[k]:
                 vals = edge.evaluate_function(func)
             else:
                 vals = edge.evaluate_function(func, ignore_endpoint=False)
                 vals = np.flip(vals[1:])
-            self.values[start:end] = vals
+            values[start:end] = vals
+        return values
-- 
2.43.0


From 55c5f42cc09a2112e63c19fa551cb506a759ae00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:05 +0000
Subject: [PATCH 42/46] fix: an interrupted search for the outer boundary does
 not lose a contour

---
 puncturedfem/mesh/cell.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/puncturedfem/mesh/cell.py b/puncturedfem/mesh/cell.py
index f62b3c7..0400e00 100644
--- a/puncturedfem/mesh/cell.py
+++ b/puncturedfem/mesh/cell.py
@@ -359,9 +359,11 @@ class MeshCell:
                 if all(is_inside):
                     outer_boundary_idx = i
         # swap contour_idx[0] and the outer boundary index
-        temp = self.components[0]
-        self.components[0] = self.components[outer_boundary_idx]
-        self.components[outer_boundary_idx] = temp
+        # (in a copy: an interrupted swap would lose one of the two contours)
+        components = list(self.components)
+        components[0] = self.components[outer_boundary_idx]
+        components[outer_boundary_idx] = self.components[0]
+        self.components = components
 
     def _find_closest_vert_idx(self) -> None:
         if not self.is_parameterized():
-- 
2.43.0


From dde11dadb412296432d5a919782650761d3ec624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:47 +0000
Subject: [PATCH 43/46] fix: plots of global functions show the axis when asked
 to

---
 puncturedfem/plot/globfun_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puncturedfem/plot/globfun_plot.py b/puncturedfem/plot/globfun_plot.py
index 9ec1282..0fe6c6d 100644
--- a/puncturedfem/plot/globfun_plot.py
+++ b/puncturedfem/plot/globfun_plot.py
@@ -219,7 +219,7 @@ class GlobalFunctionPlot:
                     fig_handle=fig,
                     show_colorbar=False,
                     show_triangulation=False,
-                    show_axis=False,
+                    show_axis=show_axis,
                     show_boundary=False,
                     colormap=colormap,
                     clim=(global_min, global_max),
-- 
2.43.0


From 182e2f97ce7404e03e3e8b7488273de73663294f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:47 +0000
Subject: [PATCH 44/46] fix: the ticks of a trace plot are at the positions
 they are labelled with

---
 puncturedfem/plot/trace_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puncturedfem/plot/trace_plot.py b/puncturedfem/plot/trace_plot.py
index 282943a..915d540 100644
--- a/puncturedfem/plot/trace_plot.py
+++ b/puncturedfem/plot/trace_plot.py
@@ -348,7 +348,7 @@ class TracePlot:
         self.x_ticks = np.zeros(num_ticks)
         self.x_ticks[:-1] = np.linspace(
             0,
-            2 * np.pi * rotations_per_tick * (num_ticks - 1),
+            2 * np.pi * rotations_per_tick * (num_ticks - 2),
             num_ticks - 1,
         )
         self.x_ticks[-1] = interval_length
-- 
2.43.0


From 5153e732a6fcbb58c3686d1dd651f92ecf726408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:20 +0000
Subject: [PATCH 45/46] fix: a trace that is given neither values nor functions
 is zero

---
 puncturedfem/locfun/trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puncturedfem/locfun/trace.py b/puncturedfem/locfun/trace.py
index 973762b..76a5eb4 100644
--- a/puncturedfem/locfun/trace.py
+++ b/puncturedfem/locfun/trace.py
@@ -97,7 +97,7 @@ class DirichletTrace:
         if funcs is not None:
             self.set_funcs(funcs)
         else:
-            self.funcs = [lambda x, y: 0 for _ in range(self.num_edges)]
+            self.set_funcs([lambda x, y: 0 for _ in range(self.num_edges)])
 
     def __add__(self, other: DirichletTrace) -> DirichletTrace:
         """
-- 
2.43.0


From 507abb9e359ea148e81acd1b9e19cc6d9e13118f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:20 +0000
Subject: [PATCH 46/46] fix: a piecewise polynomial is evaluated on all edges

---
 puncturedfem/locfun/poly/piecewise_poly.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/puncturedfem/locfun/poly/piecewise_poly.py b/puncturedfem/locfun/poly/piecewise_poly.py
index 34ac2ce..7a03319 100644
--- a/puncturedfem/locfun/poly/piecewise_poly.py
+++ b/puncturedfem/locfun/poly/piecewise_poly.py
@@ -132,6 +132,7 @@ class PiecewisePolynomial:
         for i in range(m):
             e = edges[i]
             vals[idx : idx + e.num_pts] = vals_arr[i]
+            idx += e.num_pts
         return vals
 
     def eval_on_mesh_boundary(self, K: MeshCell) -> ndarray:
-- 
2.43.0

