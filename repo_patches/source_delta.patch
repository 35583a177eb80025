From 59fa336dd72cb49169d4b15ff844ae1f88cbc7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 01/13] fix: continue from the last recorded step after a
 failed step

A run that failed or was interrupted in its thermal phase left the new deformation
and an unrecorded temperature in the thermal step. The next run started from those
instead of from the last step of the history.
---
 src/tvemoves_rufbad/simulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/simulation.py b/src/tvemoves_rufbad/simulation.py
index a7ab17d..24daf0e 100644
--- a/src/tvemoves_rufbad/simulation.py
+++ b/src/tvemoves_rufbad/simulation.py
@@ -322,8 +322,10 @@ class Simulation:
         anim.save(filename + ".mp4", fps=30, dpi=300, extra_args=["-vcodec", "libx264"])
 
     def _update_mechanical_step(self):
-        self._mechanical_step.update_prev_y(self._thermal_step.y())
-        self._mechanical_step.update_prev_theta(self._thermal_step.theta())
+        # Always continue from the last recorded step: the thermal step may hold the leftovers of a
+        # step that failed half-way.
+        self._mechanical_step.update_prev_y(self.steps[-1]._y_data)
+        self._mechanical_step.update_prev_theta(self.steps[-1]._theta_data)
         self._mechanical_step.update_boundary_traction(self._current_time)
 
     def _update_thermal_step(self):
-- 
2.43.0


From 082f817871528af4558b7c963e0236307f2fa053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 02/13] fix: derive the current time from the number of
 recorded steps

Summing up 1 / fps drifts away from the frame times (a load that switches at t = 8 acted
one step late with 10 frames per second), and an interrupted step left the clock out of
step with the history.
---
 src/tvemoves_rufbad/simulation.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/tvemoves_rufbad/simulation.py b/src/tvemoves_rufbad/simulation.py
index 24daf0e..8d1b3a4 100644
--- a/src/tvemoves_rufbad/simulation.py
+++ b/src/tvemoves_rufbad/simulation.py
@@ -261,8 +261,7 @@ class Simulation:
 
         # Add initial step
         self.steps: list[AbstractStep] = []
-        self._tau = 1 / self.params.fps
-        self._current_time = -self._tau
+        self._fps = self.params.fps
         self._max_temp = 0
         self._xlims = (float("inf"), float("-inf"))
         self._ylims = (float("inf"), float("-inf"))
@@ -282,6 +281,11 @@ class Simulation:
         self._thermal_step.solve()
         self._append_step(self._thermal_step.y(), self._thermal_step.theta())
 
+    @property
+    def _current_time(self) -> float:
+        """Time at which the loads of the next step are evaluated."""
+        return (len(self.steps) - 1) / self._fps
+
     def max_temp(self):
         return self._max_temp
 
@@ -350,9 +354,6 @@ class Simulation:
         )
         self.steps.append(step)
 
-        # Update time
-        self._current_time += self._tau
-
     def _run_single_step(self):
         self._update_mechanical_step()
         self._mechanical_step.solve()
-- 
2.43.0


From ae7630f304879499cc4d07f0066e8f86bf799aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 03/13] fix: raise an error if a step is not solved
 successfully

The outcome reported by the solver was ignored: infeasible or aborted solves, and solves
without any solution, were recorded as steps.
---
 src/tvemoves_rufbad/mechanical_step.py | 4 ++--
 src/tvemoves_rufbad/thermal_step.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tvemoves_rufbad/mechanical_step.py b/src/tvemoves_rufbad/mechanical_step.py
index b65c5eb..2fab50a 100644
--- a/src/tvemoves_rufbad/mechanical_step.py
+++ b/src/tvemoves_rufbad/mechanical_step.py
@@ -193,7 +193,7 @@ class _MechanicalStep(AbstractMechanicalStep):
         self._grid = grid
 
     def solve(self) -> None:
-        self._solver.solve(self._model)
+        pyo.assert_optimal_termination(self._solver.solve(self._model))
 
     def prev_y(self) -> npt.NDArray[np.float64]:
         """Return the previous deformation as Nx2 numpy array, where N is the number of vertices."""
@@ -415,7 +415,7 @@ class _MechanicalStepRegularized(AbstractMechanicalStep):
         )
 
     def solve(self) -> None:
-        self._solver.solve(self._model)
+        pyo.assert_optimal_termination(self._solver.solve(self._model))
 
     def prev_y(self) -> npt.NDArray[np.float64]:
         """Return the previous deformation as a Nx2x6 numpy array, where N is the number of
diff --git a/src/tvemoves_rufbad/thermal_step.py b/src/tvemoves_rufbad/thermal_step.py
index 523e678..5d36952 100644
--- a/src/tvemoves_rufbad/thermal_step.py
+++ b/src/tvemoves_rufbad/thermal_step.py
@@ -368,7 +368,7 @@ class _ThermalStep(AbstractThermalStep):
         self._external_temperature = external_temperature
 
     def solve(self) -> None:
-        self._solver.solve(self._model)
+        pyo.assert_optimal_termination(self._solver.solve(self._model))
 
     def prev_y(self) -> npt.NDArray[np.float64]:
         """Return the previous deformation as Nx2 numpy array, where N is the number of vertices."""
@@ -466,7 +466,7 @@ class _ThermalStepRegularized(AbstractThermalStep):
         )
 
     def solve(self) -> None:
-        self._solver.solve(self._model)
+        pyo.assert_optimal_termination(self._solver.solve(self._model))
 
     def prev_y(self) -> npt.NDArray[np.float64]:
         """Return the previous deformation as a Nx2x6 numpy array, where N is the number of
-- 
2.43.0


From d8c9cdc893cded242abe5c6057040629283240c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 04/13] fix: never record negative temperatures

IPOPT relaxes bounds by about 1e-8. A temperature of -1e-8 was recorded as it is and made
the next step fail, as the previous temperature must be non-negative.
---
 src/tvemoves_rufbad/thermal_step.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/thermal_step.py b/src/tvemoves_rufbad/thermal_step.py
index 5d36952..5dd5e98 100644
--- a/src/tvemoves_rufbad/thermal_step.py
+++ b/src/tvemoves_rufbad/thermal_step.py
@@ -388,7 +388,8 @@ class _ThermalStep(AbstractThermalStep):
     def theta(self) -> npt.NDArray[np.float64]:
         """Return the current temperature as vector of length N, where N is the number of vertices."""
         m = self._model
-        return np.array([m.theta[i].value for i in m.vertices])
+        # The solver may miss the lower bound by its tolerance.
+        return np.maximum([m.theta[i].value for i in m.vertices], 0.0)
 
     def update_prev_y(self, new_prev_y: npt.NDArray[np.float64]) -> None:
         if new_prev_y.shape != (self._num_vertices, 2):
@@ -508,7 +509,10 @@ class _ThermalStepRegularized(AbstractThermalStep):
         """Return the current temperature as a vector of length N_ref, where N_ref is the number of
         vertices of the refined grid.
         """
-        return np.array([self._model.theta[i].value for i in list(self._model.refined_vertices)])
+        # The solver may miss the lower bound by its tolerance.
+        return np.maximum(
+            [self._model.theta[i].value for i in list(self._model.refined_vertices)], 0.0
+        )
 
     def update_prev_y(self, new_prev_y: npt.NDArray[np.float64]) -> None:
         m = self._model
-- 
2.43.0


From 016b399fdb487c80a24037cc4dcd4dab32784bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 05/13] fix: compute plot limits from positions only in the
 regularized setting

The first and second derivatives stored next to the nodal positions entered the limits,
so the plot window did not fit the body.
---
 src/tvemoves_rufbad/simulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/simulation.py b/src/tvemoves_rufbad/simulation.py
index 8d1b3a4..1582c5b 100644
--- a/src/tvemoves_rufbad/simulation.py
+++ b/src/tvemoves_rufbad/simulation.py
@@ -341,8 +341,10 @@ class Simulation:
     def _append_step(self, y_data: npt.NDArray[np.float64], theta_data: npt.NDArray[np.float64]):
         # Update variables required for plotting
         self._max_temp = max(self._max_temp, np.max(theta_data))
-        x_coords = y_data[:, 0]
-        y_coords = y_data[:, 1]
+        # In the regularized setting only the first degree of freedom is a position.
+        positions = y_data if y_data.ndim == 2 else y_data[:, :, 0]
+        x_coords = positions[:, 0]
+        y_coords = positions[:, 1]
         self._xlims = (min(self._xlims[0], np.min(x_coords)), max(self._xlims[1], np.max(x_coords)))
         self._ylims = (min(self._ylims[0], np.min(y_coords)), max(self._ylims[1], np.max(y_coords)))
 
-- 
2.43.0


From ce9d24e1f8314ae25f7b461fb85114febe60295f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 06/13] fix: do not list interior vertices of a fixed side as
 Neumann vertices

A vertex is part of the Neumann boundary only if one of its edges is. The boundary
traction was evaluated and stored at vertices inside of fixed sides.
---
 src/tvemoves_rufbad/domain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 35c110b..c61bb5d 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -510,7 +510,7 @@ class RectangleDomain(Domain):
         )
         boundary = Boundary(boundary_vertices, boundary_edges)
 
-        # 1 / 0 => Neumann, 0 / -1 => Dirichlet
+        # 1 => not fixed, 0 / -1 => Dirichlet
         boundary_vertices_tags = {i: 1 for i in boundary_vertices}
         dirichlet_edges = set()
         neumann_edges = set(boundary_edges)
@@ -545,10 +545,10 @@ class RectangleDomain(Domain):
         dirichlet_vertices = []
         neumann_vertices = []
         for i, tag in boundary_vertices_tags.items():
-            if tag >= 0:
-                neumann_vertices.append(i)
             if tag <= 0:
                 dirichlet_vertices.append(i)
+        vertices_of_neumann_edges = {i for edge in neumann_edges for i in edge}
+        neumann_vertices = [i for i in boundary_vertices if i in vertices_of_neumann_edges]
         dirichlet_boundary = Boundary(dirichlet_vertices, list(dirichlet_edges))
         neumann_boundary = Boundary(neumann_vertices, list(neumann_edges))
 
-- 
2.43.0


From 68855ba0cbb53a281acb3df8b47b5257953eb46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 07/13] fix: do not lose the last row of cells to rounding

int(0.3 / 0.1) is 2: a rectangle evenly divided by the scale was not fully covered.
---
 src/tvemoves_rufbad/domain.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index c61bb5d..e8549a2 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -423,8 +423,9 @@ class RectangleDomain(Domain):
         If `scale` does not evenly divide the width or height of the rectangle (only) the rightmost
         or uppermost edges of the grid might not align exactly with the rectangle boundary.
         """
-        num_horizontal_vertices = int(self.width / scale) + 1
-        num_vertical_vertices = int(self.height / scale) + 1
+        # Rounding assures that e.g. 0.3 / 0.1 = 2.9999999999999996 counts as an even division.
+        num_horizontal_vertices = int(round(self.width / scale, 9)) + 1
+        num_vertical_vertices = int(round(self.height / scale, 9)) + 1
 
         def pair_to_vertex(i, j):
             # left to right, bottom to top
-- 
2.43.0


From 9abf54fa646404d909e0af199f54d255e3bdfe23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 08/13] fix: tolerate rounding errors when refining large grids

Refining a refined grid of a 10 x 10 domain failed an assertion, so that a regularized
simulation with refinement factor 3 could not be constructed.
---
 src/tvemoves_rufbad/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index e8549a2..e8fc9a0 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -697,7 +697,7 @@ def _refine_equilateral_triangle(
 
     i1, i2, i3 = triangle
     p1, p2, p3 = grid.triangle_vertices(triangle)
-    eps = 1e-15
+    eps = 1e-9 * (p2 - p1).norm()
     assert abs(p1[1] - p2[1]) < eps, "First edge of an equilateral triangle must be horizontal"
     assert abs(p2[0] - p3[0]) < eps, "Second edge of an equilateral triangle must be vertical"
 
-- 
2.43.0


From 698f33ddb3cacdbc0b047acbd1f43727ebae1bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 09/13] fix: locate points relative to the triangle size

With an absolute tolerance every point of a small grid (e.g. a body of 1e-5 x 1e-5) was
located in the first triangle.
---
 src/tvemoves_rufbad/domain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index e8fc9a0..bbd39e3 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -48,9 +48,9 @@ def _sign(triangle_vertices: TriangleVertices):
 
 def _triangle_contains_point(triangle_vertices: TriangleVertices, p: Vector) -> bool:
     """Determine if a point is contained in a triangle."""
-    eps = 1e-10
-
     p1, p2, p3 = triangle_vertices
+    eps = 1e-10 * abs(_sign(triangle_vertices))
+
     d1 = _sign((p, p1, p2))
     d2 = _sign((p, p2, p3))
     d3 = _sign((p, p3, p1))
-- 
2.43.0


From 219f5c83ead9da04c6ddc92f4cc482562bee3dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 10/13] fix: keep the plot limits in step with the history

The limits and the maximal temperature were updated before the step was built. An interrupt
in between (building a regularized step takes seconds) left them reflecting a step that
was never recorded.
---
 src/tvemoves_rufbad/simulation.py | 35 +++++++++++++++++++------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/tvemoves_rufbad/simulation.py b/src/tvemoves_rufbad/simulation.py
index 1582c5b..103fa9d 100644
--- a/src/tvemoves_rufbad/simulation.py
+++ b/src/tvemoves_rufbad/simulation.py
@@ -262,9 +262,6 @@ class Simulation:
         # Add initial step
         self.steps: list[AbstractStep] = []
         self._fps = self.params.fps
-        self._max_temp = 0
-        self._xlims = (float("inf"), float("-inf"))
-        self._ylims = (float("inf"), float("-inf"))
         self._append_step(self._mechanical_step.prev_y(), self._mechanical_step.prev_theta())
 
         # Init and solve first thermal step
@@ -286,6 +283,28 @@ class Simulation:
         """Time at which the loads of the next step are evaluated."""
         return (len(self.steps) - 1) / self._fps
 
+    # The plot limits are derived from the history, such that a step that is interrupted while it is
+    # recorded does not affect them.
+    @property
+    def _max_temp(self) -> float:
+        return max(np.max(step._theta_data) for step in self.steps)
+
+    def _lims(self, component: int) -> tuple[float, float]:
+        # In the regularized setting only the first degree of freedom is a position.
+        coords = [
+            step._y_data[:, component] if step._y_data.ndim == 2 else step._y_data[:, component, 0]
+            for step in self.steps
+        ]
+        return (np.min(coords), np.max(coords))
+
+    @property
+    def _xlims(self) -> tuple[float, float]:
+        return self._lims(0)
+
+    @property
+    def _ylims(self) -> tuple[float, float]:
+        return self._lims(1)
+
     def max_temp(self):
         return self._max_temp
 
@@ -339,16 +358,6 @@ class Simulation:
         self._thermal_step.update_external_temperature(self._current_time)
 
     def _append_step(self, y_data: npt.NDArray[np.float64], theta_data: npt.NDArray[np.float64]):
-        # Update variables required for plotting
-        self._max_temp = max(self._max_temp, np.max(theta_data))
-        # In the regularized setting only the first degree of freedom is a position.
-        positions = y_data if y_data.ndim == 2 else y_data[:, :, 0]
-        x_coords = positions[:, 0]
-        y_coords = positions[:, 1]
-        self._xlims = (min(self._xlims[0], np.min(x_coords)), max(self._xlims[1], np.max(x_coords)))
-        self._ylims = (min(self._ylims[0], np.min(y_coords)), max(self._ylims[1], np.max(y_coords)))
-
-        # Add newest step
         step = (
             Step(y_data, theta_data, self._domain, self._grid)
             if self.params.regularization is None
-- 
2.43.0


From 4db6c7978883f373741b18d5983e57c7feade65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:06 +0000
Subject: [PATCH 11/13] fix: reject a frame rate of zero

---
 src/tvemoves_rufbad/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/simulation.py b/src/tvemoves_rufbad/simulation.py
index 103fa9d..25db24d 100644
--- a/src/tvemoves_rufbad/simulation.py
+++ b/src/tvemoves_rufbad/simulation.py
@@ -182,7 +182,7 @@ class SimulationParams:
                 f"search radius must be positive but {self.search_radius} was provided"
             )
 
-        if self.fps < 0:
+        if self.fps <= 0:
             raise ValueError(f"fps must be positive but {self.fps} was provided")
 
         if self.regularization is not None and self.regularization < 0:
-- 
2.43.0


From f3db72f51f805919b0f42d285494602e6d0452f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:18 +0000
Subject: [PATCH 12/13] fix: make the hyper elastic potential differentiable
 where the hyper strain vanishes

---
 src/tvemoves_rufbad/helpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/helpers.py b/src/tvemoves_rufbad/helpers.py
index 700c1f9..fd014c2 100644
--- a/src/tvemoves_rufbad/helpers.py
+++ b/src/tvemoves_rufbad/helpers.py
@@ -135,7 +135,9 @@ def total_elastic_potential(strain: Matrix, theta):
 
 def hyper_elastic_potential(hyperstrain: Tensor3D):
     """Hyper elastic potential."""
-    return hyperstrain.norm() ** HYPER_ELASTIC_POWER
+    # A power of the squared norm is, unlike a power of the norm, differentiable by the solver where
+    # the hyper strain vanishes (e.g. in the undeformed body).
+    return hyperstrain.normsqr() ** (HYPER_ELASTIC_POWER / 2)
 
 
 def strain_derivative_coupling_potential(strain: Matrix, theta):
-- 
2.43.0


From 61674024c18ebe7bd0a11638dd23f7e6f54ec1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:32 +0000
Subject: [PATCH 13/13] fix: do not constrain values that are already fixed on
 clamped sides

---
 src/tvemoves_rufbad/mechanical_step.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/tvemoves_rufbad/mechanical_step.py b/src/tvemoves_rufbad/mechanical_step.py
index 2fab50a..17b8ae6 100644
--- a/src/tvemoves_rufbad/mechanical_step.py
+++ b/src/tvemoves_rufbad/mechanical_step.py
@@ -265,7 +265,7 @@ def _model_regularized(
     m.c1_indices = pyo.RangeSet(6)
     m.dirichlet_edges = pyo.RangeSet(len(grid.dirichlet_boundary.edges))
     m.deformation_indices = m.vertices * m.c1_indices
-    m.dirichlet_constraint_indices = m.dirichlet_edges * m.c1_indices
+    m.dirichlet_constraint_indices = m.dirichlet_edges * pyo.RangeSet(4)
     m.refined_vertices = pyo.RangeSet(len(refined_grid.vertices))
 
     initial_y1 = [[p[0], 1, 0, 0, 0, 0] for p in grid.points]
@@ -312,9 +312,11 @@ def _model_regularized(
     # Add dirichlet constraints.
     # We use the fact that y should be the identity map on any Dirichlet edge
     # and that C1 params encode all partial derivatives up to second order.
-    # This way we can formulate for each component of y 3 conditions per edge vertex:
-    # one for the value of the restriction of y to the edge, on for its first derivative,
-    # and one for its second derivative.
+    # The values at the edge vertices are fixed above. This way we can formulate for each component
+    # of y 2 further conditions per edge vertex: one for the first derivative of the restriction of y
+    # to the edge, and one for its second derivative.
+    # Constraining the fixed values as well would add constraints without unknowns, with which a small
+    # body would have more constraints than unknowns, a problem the solver refuses.
     m.y1_constraints = pyo.Constraint(
         m.dirichlet_constraint_indices,
         rule=lambda model, i, j: _dirichlet_constraint_regularized(
@@ -376,16 +378,12 @@ def _dirichlet_constraint_regularized(y, edge, edge_vertices, constraint_id, y_c
     j += 1
     match constraint_id:
         case 1:
-            return y[i, 1] == p[y_component]
-        case 2:
             return y[i, 2] * d[0] + y[i, 3] * d[1] == d[y_component]
-        case 3:
+        case 2:
             return y[i, 4] * d[0] ** 2 + 2 * y[i, 5] * d[0] * d[1] + y[i, 6] * d[1] ** 2 == 0
-        case 4:
-            return y[j, 1] == q[y_component]
-        case 5:
+        case 3:
             return y[j, 2] * d[0] + y[j, 3] * d[1] == d[y_component]
-        case 6:
+        case 4:
             return y[j, 4] * d[0] ** 2 + 2 * y[j, 5] * d[0] * d[1] + y[j, 6] * d[1] ** 2 == 0
 
 
-- 
2.43.0

