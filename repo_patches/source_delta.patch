From e61228f4f9f6a486b5a62cb3c81492d94497773d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 01/14] fix: vertices inside a fixed side are not part of the
 Neumann boundary

Tag 0 was meant for corners between a fixed and a free side, but every
non-corner vertex of a fixed side got it too.
---
 src/tvemoves_rufbad/domain.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 35c110b..4efae23 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -510,8 +510,20 @@ class RectangleDomain(Domain):
         )
         boundary = Boundary(boundary_vertices, boundary_edges)
 
-        # 1 / 0 => Neumann, 0 / -1 => Dirichlet
-        boundary_vertices_tags = {i: 1 for i in boundary_vertices}
+        num_sides = {
+            i: sum(
+                i in side_vertices
+                for side_vertices in (
+                    lower_boundary_vertices,
+                    right_boundary_vertices,
+                    upper_boundary_vertices,
+                    left_boundary_vertices,
+                )
+            )
+            for i in boundary_vertices
+        }
+        # Number of sides containing a vertex that are not fixed
+        boundary_vertices_tags = dict(num_sides)
         dirichlet_edges = set()
         neumann_edges = set(boundary_edges)
 
@@ -545,9 +557,9 @@ class RectangleDomain(Domain):
         dirichlet_vertices = []
         neumann_vertices = []
         for i, tag in boundary_vertices_tags.items():
-            if tag >= 0:
+            if tag > 0:
                 neumann_vertices.append(i)
-            if tag <= 0:
+            if tag < num_sides[i]:
                 dirichlet_vertices.append(i)
         dirichlet_boundary = Boundary(dirichlet_vertices, list(dirichlet_edges))
         neumann_boundary = Boundary(neumann_vertices, list(neumann_edges))
-- 
2.43.0


From c8008fd8531d88798096a02257580a1b21a05caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 02/14] fix: direct refined diagonal edges like the coarse
 diagonal

They were appended in the opposite direction, so that
to_coarse_edge_point rejected fine edges lying on coarse diagonals.
---
 src/tvemoves_rufbad/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 4efae23..58bab37 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -833,7 +833,7 @@ def _refine_equilateral_triangle(
             intermediate_grid.append_edge(
                 assure_orientation(
                     diagonal_edge_correct,
-                    (triangle_vertices[(k, l)], triangle_vertices[(k, l + 1)]),
+                    (triangle_vertices[(k, l + 1)], triangle_vertices[(k, l)]),
                 )
             )
 
-- 
2.43.0


From 1df51587f44016c1afc21249f8863b5c1d0f03f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 03/14] fix: do not lose a grid column or row to rounding of
 width / scale

---
 src/tvemoves_rufbad/domain.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 58bab37..1481384 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -423,8 +423,9 @@ class RectangleDomain(Domain):
         If `scale` does not evenly divide the width or height of the rectangle (only) the rightmost
         or uppermost edges of the grid might not align exactly with the rectangle boundary.
         """
-        num_horizontal_vertices = int(self.width / scale) + 1
-        num_vertical_vertices = int(self.height / scale) + 1
+        # Tolerate rounding, e.g. 0.3 / 0.1 = 2.9999999999999996
+        num_horizontal_vertices = int(self.width / scale + 1e-9) + 1
+        num_vertical_vertices = int(self.height / scale + 1e-9) + 1
 
         def pair_to_vertex(i, j):
             # left to right, bottom to top
-- 
2.43.0


From 1c51746b8bad4fbb2ac0a3aae653c366c45009d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 04/14] fix: refine already refined grids whose points carry
 rounding errors

The absolute tolerance of 1e-15 made refining a refined grid (which every
regularized step does for plotting) fail for most scales.
---
 src/tvemoves_rufbad/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 1481384..9d299d7 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -709,7 +709,7 @@ def _refine_equilateral_triangle(
 
     i1, i2, i3 = triangle
     p1, p2, p3 = grid.triangle_vertices(triangle)
-    eps = 1e-15
+    eps = 1e-9 * (p2 - p1).norm()
     assert abs(p1[1] - p2[1]) < eps, "First edge of an equilateral triangle must be horizontal"
     assert abs(p2[0] - p3[0]) < eps, "Second edge of an equilateral triangle must be vertical"
 
-- 
2.43.0


From 671fe98848a1b5349209b4c4208a5da5251f5df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 05/14] fix: check all three indices of a Tensor3D

---
 src/tvemoves_rufbad/tensors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/tensors.py b/src/tvemoves_rufbad/tensors.py
index c0d88ff..a8309e6 100644
--- a/src/tvemoves_rufbad/tensors.py
+++ b/src/tvemoves_rufbad/tensors.py
@@ -386,9 +386,9 @@ class Tensor3D:
         i, j, k = index
         if i < 0 or i >= self.shape[0]:
             raise IndexError(f"index {i} is out of bounds for axis 0 with size {self.shape[0]}")
-        if i < 0 or i >= self.shape[0]:
+        if j < 0 or j >= self.shape[1]:
             raise IndexError(f"index {j} is out of bounds for axis 1 with size {self.shape[1]}")
-        if i < 0 or i >= self.shape[0]:
+        if k < 0 or k >= self.shape[2]:
             raise IndexError(f"index {k} is out of bounds for axis 2 with size {self.shape[2]}")
         return self.data[i][j][k]
 
-- 
2.43.0


From 26ebbfcdec30b7e73e06682cc32f0c25530169c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 06/14] fix: reject scalar products of vectors of different
 sizes

---
 src/tvemoves_rufbad/tensors.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tvemoves_rufbad/tensors.py b/src/tvemoves_rufbad/tensors.py
index a8309e6..d4ffd51 100644
--- a/src/tvemoves_rufbad/tensors.py
+++ b/src/tvemoves_rufbad/tensors.py
@@ -70,6 +70,10 @@ class Vector:
 
     def dot(self, other: Vector):
         """Compute the scalar product with another vector."""
+        if self.size != other.size:
+            raise ValueError(
+                f"scalar product of vectors of sizes {self.size} and {other.size} is not defined"
+            )
         return sum(x * y for x, y in zip(self.data, other.data))
 
     def map(self, f: Callable) -> Vector:
-- 
2.43.0


From 503f26d76985cebc8e5330b3fce7e09b212f381b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 07/14] fix: reject a frame rate of zero

---
 src/tvemoves_rufbad/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/simulation.py b/src/tvemoves_rufbad/simulation.py
index a7ab17d..6cfe32c 100644
--- a/src/tvemoves_rufbad/simulation.py
+++ b/src/tvemoves_rufbad/simulation.py
@@ -182,7 +182,7 @@ class SimulationParams:
                 f"search radius must be positive but {self.search_radius} was provided"
             )
 
-        if self.fps < 0:
+        if self.fps <= 0:
             raise ValueError(f"fps must be positive but {self.fps} was provided")
 
         if self.regularization is not None and self.regularization < 0:
-- 
2.43.0


From 7f348856fa5a6aa321e978583e6ec230da764ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 08/14] fix: continue from the last recorded step after a
 failed thermal solve

The thermal step already holds the new deformation of the failed step.
---
 src/tvemoves_rufbad/simulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/simulation.py b/src/tvemoves_rufbad/simulation.py
index 6cfe32c..367b6eb 100644
--- a/src/tvemoves_rufbad/simulation.py
+++ b/src/tvemoves_rufbad/simulation.py
@@ -322,8 +322,10 @@ class Simulation:
         anim.save(filename + ".mp4", fps=30, dpi=300, extra_args=["-vcodec", "libx264"])
 
     def _update_mechanical_step(self):
-        self._mechanical_step.update_prev_y(self._thermal_step.y())
-        self._mechanical_step.update_prev_theta(self._thermal_step.theta())
+        # Start from the recorded history as the thermal step might hold data of a failed step
+        last_step = self.steps[-1]
+        self._mechanical_step.update_prev_y(last_step._y_data)
+        self._mechanical_step.update_prev_theta(last_step._theta_data)
         self._mechanical_step.update_boundary_traction(self._current_time)
 
     def _update_thermal_step(self):
-- 
2.43.0


From 8ea54c2bda5d8f81fdd54ad4f1f50c8d71e66397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 09/14] fix: compute plot limits from positions only in the
 regularized setting

They included the first and second derivatives.
---
 src/tvemoves_rufbad/simulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/simulation.py b/src/tvemoves_rufbad/simulation.py
index 367b6eb..3c96e8d 100644
--- a/src/tvemoves_rufbad/simulation.py
+++ b/src/tvemoves_rufbad/simulation.py
@@ -337,8 +337,10 @@ class Simulation:
     def _append_step(self, y_data: npt.NDArray[np.float64], theta_data: npt.NDArray[np.float64]):
         # Update variables required for plotting
         self._max_temp = max(self._max_temp, np.max(theta_data))
-        x_coords = y_data[:, 0]
-        y_coords = y_data[:, 1]
+        # In the regularized setting the first degree of freedom is the position
+        positions = y_data if y_data.ndim == 2 else y_data[:, :, 0]
+        x_coords = positions[:, 0]
+        y_coords = positions[:, 1]
         self._xlims = (min(self._xlims[0], np.min(x_coords)), max(self._xlims[1], np.max(x_coords)))
         self._ylims = (min(self._ylims[0], np.min(y_coords)), max(self._ylims[1], np.max(y_coords)))
 
-- 
2.43.0


From 2e96c9c0565a08456f010c003577346240afb04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 10/14] fix: transfer barycentric coordinates along with a
 rotated triangle

---
 src/tvemoves_rufbad/domain.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 9d299d7..c473cdf 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -345,15 +345,18 @@ class RefinedGrid(Grid):
         """Transform a barycentric point in the fine mesh to a barycentric point in the coarse mesh"""
         fine_triangle = fine_point.triangle
         i1, i2, i3 = fine_triangle
+        p = fine_point.coordinates
         if (i1, i2, i3) not in self.triangles:
+            # The coordinates have to follow their vertices
             if (i2, i3, i1) in self.triangles:
                 fine_triangle = (i2, i3, i1)
+                p = BarycentricCoordinates(p.l2, p.l3)
             elif (i3, i1, i2) in self.triangles:
                 fine_triangle = (i3, i1, i2)
+                p = BarycentricCoordinates(p.l3, p.l1)
             else:
                 raise ValueError("triangle does not appear in the grid")
         coarse_triangle = self._coarse_triangle[fine_triangle]
-        p = fine_point.coordinates
         q1, q2, q3 = self._coarse_barycentric_coordinates[fine_triangle]
         coarse_barycentric_coordinates = BarycentricCoordinates(
             p.l1 * q1.l1 + p.l2 * q2.l1 + p.l3 * q3.l1, p.l1 * q1.l2 + p.l2 * q2.l2 + p.l3 * q3.l2
-- 
2.43.0


From c5c734d8a07a933a036431b84c1d60bb956cf0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:07 +0000
Subject: [PATCH 11/14] fix: tolerance of the point location relative to the
 size of the triangle

---
 src/tvemoves_rufbad/domain.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index c473cdf..3e37c71 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -48,9 +48,8 @@ def _sign(triangle_vertices: TriangleVertices):
 
 def _triangle_contains_point(triangle_vertices: TriangleVertices, p: Vector) -> bool:
     """Determine if a point is contained in a triangle."""
-    eps = 1e-10
-
     p1, p2, p3 = triangle_vertices
+    eps = 1e-10 * abs(_sign((p1, p2, p3)))  # relative to the size of the triangle
     d1 = _sign((p, p1, p2))
     d2 = _sign((p, p2, p3))
     d3 = _sign((p, p3, p1))
-- 
2.43.0


From ed30d97ab35cb8af6ea5991e80394406a72aabce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:22 +0000
Subject: [PATCH 12/14] fix: plot a grid without an axis to plot on

---
 src/tvemoves_rufbad/domain.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 3e37c71..bfc32fc 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -149,13 +149,12 @@ class Grid(ABC):
 
     def plot(self, ax):
         """Returns matplotlib plot of the grid."""
+        new_xlim = (-PLOT_BORDER, max(p[0] for p in self.points) + PLOT_BORDER)
+        new_ylim = (-PLOT_BORDER, max(p[1] for p in self.points) + PLOT_BORDER)
         if ax is None:
-            _, ax = fig_axis()
+            _, ax = fig_axis(new_xlim, new_ylim)
 
-        new_xlim = (-PLOT_BORDER, max(p[0] for p in self.points) + PLOT_BORDER)
         _adjust_xlim(ax, new_xlim)
-
-        new_ylim = (-PLOT_BORDER, max(p[1] for p in self.points) + PLOT_BORDER)
         _adjust_ylim(ax, new_ylim)
 
         self._plot_vertices(ax)
-- 
2.43.0


From 13fc1ec6ec2e307a125876e700bd880b6c55769d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:12 +0000
Subject: [PATCH 13/14] fix: cover grids with negative coordinates by the
 limits of their plots

---
 src/tvemoves_rufbad/domain.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index bfc32fc..8391a85 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -149,8 +149,10 @@ class Grid(ABC):
 
     def plot(self, ax):
         """Returns matplotlib plot of the grid."""
-        new_xlim = (-PLOT_BORDER, max(p[0] for p in self.points) + PLOT_BORDER)
-        new_ylim = (-PLOT_BORDER, max(p[1] for p in self.points) + PLOT_BORDER)
+        x = [p[0] for p in self.points]
+        y = [p[1] for p in self.points]
+        new_xlim = (min(x) - PLOT_BORDER, max(x) + PLOT_BORDER)
+        new_ylim = (min(y) - PLOT_BORDER, max(y) + PLOT_BORDER)
         if ax is None:
             _, ax = fig_axis(new_xlim, new_ylim)
 
-- 
2.43.0


From 47720f00ef8048e7049685fc48f0af07dac68f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:28 +0000
Subject: [PATCH 14/14] fix: keep what an inverted axis showed when drawing a
 grid on it

---
 src/tvemoves_rufbad/domain.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 8391a85..8dde86f 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -85,13 +85,17 @@ def _to_barycentric_coordinates(
 
 
 def _adjust_xlim(ax, xlim=tuple[float, float]) -> None:
-    old_xlim = ax.get_xlim()
-    ax.set_xlim(min(old_xlim[0], xlim[0]), max(old_xlim[1], xlim[1]))
+    lower, upper = ax.get_xbound()
+    new_xlim = (min(lower, xlim[0]), max(upper, xlim[1]))
+    # An inverted axis stays inverted
+    ax.set_xlim(new_xlim[::-1] if ax.xaxis_inverted() else new_xlim)
 
 
 def _adjust_ylim(ax, ylim=tuple[float, float]) -> None:
-    old_ylim = ax.get_ylim()
-    ax.set_ylim(min(old_ylim[0], ylim[0]), max(old_ylim[1], ylim[1]))
+    lower, upper = ax.get_ybound()
+    new_ylim = (min(lower, ylim[0]), max(upper, ylim[1]))
+    # An inverted axis stays inverted
+    ax.set_ylim(new_ylim[::-1] if ax.yaxis_inverted() else new_ylim)
 
 
 class Grid(ABC):
-- 
2.43.0

