From e5c5296e48517367eb43553e642a9af33755d621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 01/21] fix: interpolate the data-domain indicator instead of
 discarding it

For fitted domains the user's indicator was overwritten with an empty DG0 function
before being interpolated (from itself), so the data term was always zero; the caller's
DataDomain object was clobbered as well.
---
 src/dxss/space_time.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 3bd5ccc..fdf7f33 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -146,10 +146,9 @@ class SpaceTime:
         # TODO: could this be moved to the constructor of the dataclass?
         if omega.fitted:
             q_ind = fem.FunctionSpace(self.msh, ("DG", 0))
-            self.omega.indicator_function = fem.Function(q_ind)
-            self.omega.indicator_function.interpolate(self.omega.indicator_function)
-        else:
-            self.omega.indicator_function = self.omega.indicator_function
+            indicator = fem.Function(q_ind)
+            indicator.interpolate(omega.indicator_function)
+            self.omega = DataDomain(indicator_function=indicator, fitted=True)
 
         # FESpaces
         self.fes = None
-- 
2.43.0


From e05c02057b24822be671004d27a3c992b3cb7adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 02/21] fix: two-level preconditioner calls its own coarse-grid
 operator

pre_twolvl looked q_op up on the OrderTime dataclass and always raised AttributeError.
---
 src/dxss/space_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index fdf7f33..7416660 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1440,7 +1440,7 @@ class SpaceTime:
         self.prolongation(self.tmp2_coarse, x_out)
 
     def pre_twolvl(self, b, x_sol):
-        self.otime.q_op(b, self.tmp3_sol)
+        self.q_op(b, self.tmp3_sol)
         self.apply_spacetime_matrix(self.tmp3_sol, self.tmp4_sol)
         self.tmp5_sol.array[:] = b.array[:]
         self.tmp5_sol.array[:] -= self.tmp4_sol.array[:]
-- 
2.43.0


From 452007f4b2e6bb03eaedaf614a4d6a89e32a9c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 03/21] fix: pass right-hand side and solution to the direct
 solver in the right order

KSP.solve takes (b, x); the drivers' direct branch solved for the right-hand side with the
(uninitialised) solution vector and returned it unsolved.
---
 src/dxss/solve_1d.py | 2 +-
 src/dxss/solve_2d.py | 2 +-
 src/dxss/solve_3d.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dxss/solve_1d.py b/src/dxss/solve_1d.py
index 1a0309e..848c8c6 100644
--- a/src/dxss/solve_1d.py
+++ b/src/dxss/solve_1d.py
@@ -170,7 +170,7 @@ def solve_problem(measure_errors=False):
         A_space_time = ST.get_spacetime_matrix()  # noqa: N806
         u_sol, _ = A_space_time.createVecs()
         solver_space_time = get_lu_solver(ST.msh, A_space_time)
-        solver_space_time.solve(u_sol, b_rhs)
+        solver_space_time.solve(b_rhs, u_sol)
 
     end = time.time()
     print("elapsed time  " + str(end - start) + " seconds")
diff --git a/src/dxss/solve_2d.py b/src/dxss/solve_2d.py
index 292d46b..e26db7f 100644
--- a/src/dxss/solve_2d.py
+++ b/src/dxss/solve_2d.py
@@ -172,7 +172,7 @@ def solve_problem(measure_errors=False):
         A_space_time = ST.get_spacetime_matrix()  # noqa: N806
         u_sol, _ = A_space_time.createVecs()
         solver_space_time = get_lu_solver(ST.msh, A_space_time)
-        solver_space_time.solve(u_sol, b_rhs)
+        solver_space_time.solve(b_rhs, u_sol)
 
     end = time.time()
     print("elapsed time  " + str(end - start) + " seconds")
diff --git a/src/dxss/solve_3d.py b/src/dxss/solve_3d.py
index 9f36f60..9fcb1c9 100644
--- a/src/dxss/solve_3d.py
+++ b/src/dxss/solve_3d.py
@@ -237,7 +237,7 @@ def solve_problem(measure_errors=False):
         A_space_time = ST.get_spacetime_matrix()  # noqa: N806
         u_sol, _ = A_space_time.createVecs()
         solver_space_time = get_lu_solver(ST.msh, A_space_time)
-        solver_space_time.solve(u_sol, b_rhs)
+        solver_space_time.solve(b_rhs, u_sol)
 
     end = time.time()
     print("elapsed time  " + str(end - start) + " seconds")
-- 
2.43.0


From cd371f9dd4c2a80596b53bd79144019439541a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 04/21] fix: reject non-sequential gmsh node numbers, not
 sequential ones

The three inclusion mesh generators raised 'idx not sequential' exactly when the node
numbers were sequential, i.e. on every mesh.
---
 src/dxss/meshes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index dd74037..fd3ae43 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -491,7 +491,7 @@ def get_mesh_inclusion(h_init=1.25, order=2):  # noqa: PLR0915
     points = ls_points_2d.reshape(-1, 2)
     idx -= 1
     srt = np.argsort(idx)
-    if np.all(idx[srt] == np.arange(len(idx))):
+    if not np.all(idx[srt] == np.arange(len(idx))):
         msg = "idx not sequential"
         raise RuntimeError(msg)  # TODO: check
     x = points[srt]
@@ -623,7 +623,7 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
     points = ls_points_2d.reshape(-1, 2)
     idx -= 1
     srt = np.argsort(idx)
-    if np.all(idx[srt] == np.arange(len(idx))):
+    if not np.all(idx[srt] == np.arange(len(idx))):
         msg = "idx not sequential"
         raise RuntimeError(msg)  # TODO: check
     x = points[srt]
@@ -728,7 +728,7 @@ def get_mesh_bottom_data(h_init=1.25, eta=0.6):
     points = ls_points_2d.reshape(-1, 2)
     idx -= 1
     srt = np.argsort(idx)
-    if np.all(idx[srt] == np.arange(len(idx))):
+    if not np.all(idx[srt] == np.arange(len(idx))):
         msg = "idx not sequential"
         raise RuntimeError(msg)  # TODO: check
     x = points[srt]
-- 
2.43.0


From 5b5326ae91602f077220b690bbecfa42889b0819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 05/21] fix: get_mesh_inclusion_square no longer calls an
 undefined function

---
 src/dxss/meshes.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index fd3ae43..5782d57 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -650,9 +650,7 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
         MPI.COMM_WORLD,
         cells,
         x,
-        ufl_mesh_from_gmsh(  # noqa: F821
-            gmshio.ufl_mesh(gmsh_cell_id, x.shape[1]),
-        ),  # TODO: this function is undefined!! (old dolfinx api?)
+        gmshio.ufl_mesh(gmsh_cell_id, x.shape[1]),
     )
 
     with XDMFFile(msh.comm, "mesh.xdmf", "w") as xdmf:
-- 
2.43.0


From 8a3ba784116688f1d3fb5a2c1b27c571c596e395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 06/21] fix: finalize gmsh after building the 3D mesh

The session was left open, so generating any further mesh in the same process failed.
---
 src/dxss/meshes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index 5782d57..1ff7393 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -917,6 +917,7 @@ def get_3d_mesh_data_all_around(n_ref, init_h_scale=1.0):
         gmsh_model_rank,
         gdim=gdim,
     )
+    gmsh.finalize()
 
     mesh_hierarchy = []
     mesh_hierarchy.append(mesh)
-- 
2.43.0


From b31872e9336738b322cd824b38394add210d0714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 07/21] fix: get_mesh_inclusion_square works with its default
 arguments

With eta == y_r the (empty) upper part of the target domain was passed to gmsh as a
rectangle of zero height, which raises.
---
 src/dxss/meshes.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index 1ff7393..21e5d69 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -555,25 +555,25 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
                 x_r - x_l,
                 eta - y_l,
             )
-            target_dom_plus = gmsh.model.occ.addRectangle(
-                x_l,
-                eta,
-                0,
-                x_r - x_l,
-                y_r - eta,
-            )
             mu_inner = gmsh.model.occ.addRectangle(-0.75, -0.75, 0, 1.5, 1.5)
             remainder_top = gmsh.model.occ.addRectangle(-1.5, eta, 0, 3.0, 1.5 - eta)
+            fragments = [
+                (2, target_dom_minus),
+                (2, mu_inner),
+                (2, remainder_top),
+            ]
+            # the part of the target domain above eta is empty if eta >= y_r
+            if eta < y_r:
+                target_dom_plus = gmsh.model.occ.addRectangle(
+                    x_l,
+                    eta,
+                    0,
+                    x_r - x_l,
+                    y_r - eta,
+                )
+                fragments.append((2, target_dom_plus))
             gmsh.model.occ.synchronize()
-            gmsh.model.occ.fragment(
-                [(2, 3)],
-                [
-                    (2, target_dom_minus),
-                    (2, mu_inner),
-                    (2, target_dom_plus),
-                    (2, remainder_top),
-                ],
-            )
+            gmsh.model.occ.fragment([(2, 3)], fragments)
 
             gmsh.model.occ.synchronize()
 
-- 
2.43.0


From aaea2466a57848f07b8b6ed0e11c1da1d04e47ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 08/21] fix: prepare_precondition_gmres builds everything the
 GMRES iteration uses

The work vector was only created if the slab matrix had not been requested before, and
the slab matrix without DG jumps (used by apply_spacetime_matrix) was never built for
well-posed problems.
---
 src/dxss/space_time.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 7416660..a7a2584 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -208,6 +208,7 @@ class SpaceTime:
         self.vec_coupling2 = None
         self.u1_0_pre = None
         self.u2_0_pre = None
+        self.b_rhs_pre = None
         self.vec_0_bnd_in = None
         self.vec_0_bnd_out = None
 
@@ -1328,9 +1329,10 @@ class SpaceTime:
     def prepare_precondition_gmres(self):
         if not self.slab_matrix:
             self.setup_slab_matrix(with_jumps=True)
-            self.b_rhs_pre, _ = self.slab_matrix.createVecs()
-        if not self.SlabMatFirstSlab and not self.well_posed:
+        if not self.slab_matrix_no_dg_jumps:
             self.setup_slab_matrix(with_jumps=False)
+        if not self.b_rhs_pre:
+            self.b_rhs_pre, _ = self.slab_matrix.createVecs()
         if not self.coupling_matrix_between_slices:
             self.setup_coupling_matrix_between_slices()
         if not self.SpaceTimeRhs:
-- 
2.43.0


From d89758b8b7382bc3f0babea7ec18537f00cdd3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 09/21] fix: apply the initial-data terms of well-posed
 problems in the matrix-free product

The assembled space-time matrix and the right-hand side contain them, but
apply_spacetime_matrix did not, so GMRES solved a different system.
---
 src/dxss/space_time.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index a7a2584..2b6681c 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1160,6 +1160,20 @@ class SpaceTime:
                         self.dofmaps_full[j][shift_idx + ell]
                     ] += self.vec_slab2.array[self.dofmaps_pre[j][ell]]
 
+            if n == 0 and self.well_posed:  # penalty terms for the initial data
+                for j in range(2):
+                    self.vec_0_bnd_in.array[self.dofmaps_slab_bnd[j]] = vec_in.array[
+                        self.dofmaps_full[j][0]
+                    ]
+                self.scaled_mass_matrix_between_slices.mult(
+                    self.vec_0_bnd_in,
+                    self.vec_0_bnd_out,
+                )
+                for j in range(2):
+                    vec_out.array[self.dofmaps_full[j][0]] += self.vec_0_bnd_out.array[
+                        self.dofmaps_slab_bnd[j]
+                    ]
+
             if n > 0:
                 for j in range(2):
                     for i in range(2):
-- 
2.43.0


From e6dab05f4d8b22493a65651b50a1006f80843eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 10/21] fix: get_spacetime_matrix honours precond on every call

The first variant requested was cached and returned for the other one as well.
---
 src/dxss/space_time.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 2b6681c..d846ca9 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -178,6 +178,7 @@ class SpaceTime:
         # SpaceTime
         self.spacetime_bilinear_form = None
         self.spacetime_matrix = None
+        self.spacetime_precond = None  # variant held in spacetime_matrix
         # Slab matrix with DG-jumps
         self.slab_bilinear_form = None
         self.slab_matrix = None
@@ -707,7 +708,7 @@ class SpaceTime:
         return A, bilinear_form
 
     def get_spacetime_matrix(self, precond=False):
-        if not self.spacetime_matrix:
+        if not self.spacetime_matrix or self.spacetime_precond != precond:
             A, bilinear_form = self.setup_spacetime_matrix(  # noqa: N806
                 self.fes,
                 precond,
@@ -715,16 +716,18 @@ class SpaceTime:
             # TODO: was this a bug? also on l663 👇
             self.spacetime_bilinear_form = bilinear_form
             self.spacetime_matrix = A
+            self.spacetime_precond = precond
         return self.spacetime_matrix
 
     def get_spacetime_bfi(self, precond=False):
-        if not self.spacetime_bilinear_form:
+        if not self.spacetime_bilinear_form or self.spacetime_precond != precond:
             A, bilinear_form = self.setup_spacetime_matrix(  # noqa: N806
                 self.fes,
                 precond,
             )
             self.spacetime_bilinear_form = bilinear_form
             self.spacetime_matrix = A
+            self.spacetime_precond = precond
         return self.spacetime_bilinear_form
 
     def setup_rhs(self):
-- 
2.43.0


From cb1167a6b3caf6173972c25ed972b06a35c6f488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 11/21] fix: measuring errors and writing output leave the
 initial data alone

Both overwrote u1_0/u2_0, the functions the right-hand side of well-posed problems reads
its initial data from, with the computed solution at the final time.
---
 src/dxss/space_time.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index d846ca9..a4a9a61 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1478,10 +1478,10 @@ class SpaceTime:
         self.uh.x.scatter_forward()
         u1_h, u2_h, z1_h, z2_h = self.uh.split()
 
-        self.u1_0.x.array[:] = u1_h.x.array[self.dofmaps_full[0][-1]]
-        self.u2_0.x.array[:] = u2_h.x.array[self.dofmaps_full[1][-1]]
+        u1_end = fem.Function(self.fes_u1_0)  # u1_0, u2_0 hold the initial data
+        u1_end.x.array[:] = u1_h.x.array[self.dofmaps_full[0][-1]]
         ue = self.solution.v(self.T, self.x)
-        l2_error = fem.form(ufl.inner(self.u1_0 - ue, self.u1_0 - ue) * dx)
+        l2_error = fem.form(ufl.inner(u1_end - ue, u1_end - ue) * dx)
         error_local = fem.assemble_scalar(l2_error)
         error_l2_abs = np.sqrt(self.msh.comm.allreduce(error_local, op=MPI.SUM))
         print(f"t = {self.T}, L2-error = {error_l2_abs} ")
@@ -1849,8 +1849,10 @@ class SpaceTime:
         self.uh.x.scatter_forward()
         u1_h, u2_h, z1_h, z2_h = self.uh.split()
 
-        self.u1_0.x.array[:] = u1_h.x.array[self.dofmaps_full[0][-1]]
-        self.u2_0.x.array[:] = u2_h.x.array[self.dofmaps_full[1][-1]]
+        u1_end = fem.Function(self.fes_u1_0)  # u1_0, u2_0 hold the initial data
+        u2_end = fem.Function(self.fes_u2_0)
+        u1_end.x.array[:] = u1_h.x.array[self.dofmaps_full[0][-1]]
+        u2_end.x.array[:] = u2_h.x.array[self.dofmaps_full[1][-1]]
 
         u_exact = fem.Function(self.fes_u1_0)
         u_diff = fem.Function(self.fes_u1_0)
@@ -1870,8 +1872,8 @@ class SpaceTime:
         )
         ut_exact.interpolate(ut_expr_exact)
 
-        u_diff.x.array[:] = np.abs(u_exact.x.array[:] - self.u1_0.x.array[:])
-        ut_diff.x.array[:] = np.abs(ut_exact.x.array[:] - self.u2_0.x.array[:])
+        u_diff.x.array[:] = np.abs(u_exact.x.array[:] - u1_end.x.array[:])
+        ut_diff.x.array[:] = np.abs(ut_exact.x.array[:] - u2_end.x.array[:])
         print(" u_diff.x.array =", u_diff.x.array)
 
         u_diff.name = "u-abserr"
-- 
2.43.0


From 951e902bca92c26b3b2163f3b3946cdc373fec43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 12/21] fix: sample the error at the final time for every
 number of slabs

(N - 1) * T / N + T / N can round below T (T = 1, N = 6 for example), in which case the
sample at T belonged to no slab and was left out of the L-infinity errors.
---
 src/dxss/space_time.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index a4a9a61..46a4646 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1496,6 +1496,8 @@ class SpaceTime:
 
         for n in range(self.N):
             t_n = n * delta_t
+            # rounding must not lose the sample at the final time
+            t_n_end = self.T if n == self.N - 1 else t_n + delta_t
             if n > 0:
                 self.u1_minus.x.array[:] = u1_h.x.array[
                     self.dofmaps_full[0][int_idx - 1]
@@ -1537,7 +1539,7 @@ class SpaceTime:
                 total_error_l2l2_dt += omega_i * delta_t * error_dt_tni
 
             for t_sample in self.sample_pts_error:
-                if t_sample >= t_n and t_sample <= (t_n + delta_t):
+                if t_sample >= t_n and t_sample <= t_n_end:
                     ue = self.solution.v(t_sample, self.x)
                     dt_ue = self.solution.dvdt(t_sample, self.x)
                     uh_at_ti = sum(
-- 
2.43.0


From 2bb9600420bc576af154711a811d7a2fc67da430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 13/21] fix: grid transfer of the dual variables uses their own
 order in space

prolongation and restriction moved all four variables through Functions of the primal
space, which fails (array sizes differ) whenever kstar != k.
---
 src/dxss/space_time.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 46a4646..84cef21 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -248,6 +248,8 @@ class SpaceTime:
         self.dofmap_node_fine = None
         self.u_node_fine = None
         self.u_node_coarse = None
+        self.u_node_fine_dual = None
+        self.u_node_coarse_dual = None
 
     def setup_spacetime_finite_elements(self):
         # Full Space-time system
@@ -1399,6 +1401,11 @@ class SpaceTime:
         self.fes_node_fine, self.dofmap_node_fine = self.fes.sub(0).sub(0).collapse()
         self.u_node_fine = fem.Function(self.fes_node_fine)
         self.u_node_coarse = fem.Function(self.fes_node_coarse)
+        # the dual variables have their own order in space
+        self.u_node_fine_dual = fem.Function(self.fes.sub(2).sub(0).collapse()[0])
+        self.u_node_coarse_dual = fem.Function(
+            self.fes_coarse.sub(2).sub(0).collapse()[0],
+        )
 
         self.SpaceTimeMatCoarse, self.SpaceTimeBfiCoarse = self.setup_spacetime_matrix(
             self.fes_coarse,
@@ -1425,14 +1432,16 @@ class SpaceTime:
         for _n in range(self.N):
             for j in range(4):
                 shift_idx = int_idx_q if j in [0, 1] else int_idx_qstar
+                u_fine = self.u_node_fine if j in [0, 1] else self.u_node_fine_dual
+                u_coarse = self.u_node_coarse if j in [0, 1] else self.u_node_coarse_dual
                 for ell in range(self.subspace_time_order[j] + 1):
-                    self.u_node_coarse.x.array[:] = x_coarse.array[
+                    u_coarse.x.array[:] = x_coarse.array[
                         self.dofmaps_full_coarse[j][shift_idx + ell]
                     ]
-                    self.u_node_fine.interpolate(self.u_node_coarse)
+                    u_fine.interpolate(u_coarse)
                     x_fine.array[
                         self.dofmaps_full[j][shift_idx + ell]
-                    ] = self.u_node_fine.x.array[:]
+                    ] = u_fine.x.array[:]
             int_idx_q += self.otime.q + 1
             int_idx_qstar += self.otime.qstar + 1
 
@@ -1442,14 +1451,16 @@ class SpaceTime:
         for _n in range(self.N):
             for j in range(4):
                 shift_idx = int_idx_q if j in [0, 1] else int_idx_qstar
+                u_fine = self.u_node_fine if j in [0, 1] else self.u_node_fine_dual
+                u_coarse = self.u_node_coarse if j in [0, 1] else self.u_node_coarse_dual
                 for ell in range(self.subspace_time_order[j] + 1):
-                    self.u_node_fine.x.array[:] = x_fine.array[
+                    u_fine.x.array[:] = x_fine.array[
                         self.dofmaps_full[j][shift_idx + ell]
                     ]
-                    self.u_node_coarse.interpolate(self.u_node_fine)
+                    u_coarse.interpolate(u_fine)
                     x_coarse.array[
                         self.dofmaps_full_coarse[j][shift_idx + ell]
-                    ] = self.u_node_coarse.x.array[:]
+                    ] = u_coarse.x.array[:]
             int_idx_qstar += self.otime.qstar + 1
             int_idx_q += self.otime.q + 1
 
-- 
2.43.0


From aee7bbd42bba4e88f5795cc4377b9c341e11f09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:22 +0000
Subject: [PATCH 14/21] fix: return the residual of the solution, not of a
 twice-corrected one

---
 src/dxss/gmres.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dxss/gmres.py b/src/dxss/gmres.py
index 3c14f88..c00c2b2 100644
--- a/src/dxss/gmres.py
+++ b/src/dxss/gmres.py
@@ -101,6 +101,9 @@ def get_gmres_solution(
         PETSc.Sys.Print(f"Solver did not converge after {ksp_iter} iterations.")
         raise PETSc.Error
 
-    r = ksp.buildResidual()
+    # After GMRes has returned, KSPBuildResidual applies the last correction a second time.
+    r = b.duplicate()
+    A_shell.mult(x, r)
+    r.aypx(-1.0, b)  # r = b - A x
 
     return (x, r)
-- 
2.43.0


From 4683f64cb15f92d88497fafd541fba4d722873b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 15/21] fix: refine the 2D mesh hierarchies with DOLFINx 0.7 as
 well

---
 src/dxss/meshes.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index 21e5d69..0f106b4 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -19,6 +19,15 @@ GM = GhostMode.shared_facet
 eta = 0.6
 
 
+def _mesh_or_topology(mesh):
+    # Call signature for compute_incident_entities changed to accept mesh topology
+    # rather than mesh in dolfinx v0.7 so set relevant argument accordingly based on
+    # installed version
+    if Version(version("fenics-dolfinx")) < Version("0.7"):
+        return mesh
+    return mesh.topology
+
+
 def create_initial_mesh_convex(init_h_scale=1.0):  # noqa: PLR0915
     # TODO: Need to understand why there is a an import and subfunction here.
     # Looks like create_mesh could be global level. The following functions have
@@ -223,7 +232,7 @@ def get_mesh_hierarchy(n_ref, init_h_scale=1.0):  # noqa: PLR0915
     for _i in range(n_ref):
         mesh.topology.create_entities(1)
         cells = locate_entities(mesh, mesh.topology.dim, refine_all)
-        edges = compute_incident_entities(mesh, cells, 2, 1)
+        edges = compute_incident_entities(_mesh_or_topology(mesh), cells, 2, 1)
         mesh = refine(mesh, edges, redistribute=True)
         mesh_hierarchy.append(mesh)
     return mesh_hierarchy
@@ -313,7 +322,7 @@ def get_mesh_hierarchy_nonconvex(n_ref, init_h_scale=1.0):  # noqa: PLR0915
     for _i in range(n_ref):
         mesh.topology.create_entities(1)
         cells = locate_entities(mesh, mesh.topology.dim, refine_all)
-        edges = compute_incident_entities(mesh, cells, 2, 1)
+        edges = compute_incident_entities(_mesh_or_topology(mesh), cells, 2, 1)
         print(edges)
         mesh = refine(mesh, edges, redistribute=True)
         mesh_hierarchy.append(mesh)
@@ -424,7 +433,7 @@ def get_mesh_hierarchy_fitted_disc(n_ref, eta, h_init=1.25):  # noqa: PLR0915
     for _i in range(n_ref):
         mesh.topology.create_entities(1)
         cells = locate_entities(mesh, mesh.topology.dim, refine_all)
-        edges = compute_incident_entities(mesh, cells, 2, 1)
+        edges = compute_incident_entities(_mesh_or_topology(mesh), cells, 2, 1)
         print(edges)
         mesh = refine(mesh, edges, redistribute=True)
         mesh_hierarchy.append(mesh)
-- 
2.43.0


From e574a13231ec764a54f247b12098d909fd9e4e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:05 +0000
Subject: [PATCH 16/21] fix: get_mesh_inclusion_square fills the square and
 fits every target domain

---
 src/dxss/meshes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index 0f106b4..aba5615 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -562,14 +562,17 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
                 y_l,
                 0,
                 x_r - x_l,
-                eta - y_l,
+                min(eta, y_r) - y_l,
             )
+            # the rest of the square cut out above, if the target domain is smaller
+            remainder = gmsh.model.occ.addRectangle(-1.25, -1.25, 0, 2.5, 1.25 + eta)
             mu_inner = gmsh.model.occ.addRectangle(-0.75, -0.75, 0, 1.5, 1.5)
             remainder_top = gmsh.model.occ.addRectangle(-1.5, eta, 0, 3.0, 1.5 - eta)
             fragments = [
                 (2, target_dom_minus),
                 (2, mu_inner),
                 (2, remainder_top),
+                (2, remainder),
             ]
             # the part of the target domain above eta is empty if eta >= y_r
             if eta < y_r:
-- 
2.43.0


From c4251705c498401d60b54acb220e64e0737f3dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:05 +0000
Subject: [PATCH 17/21] fix: label target domain and remainder of the nonconvex
 mesh correctly

---
 src/dxss/meshes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index aba5615..119e477 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -262,7 +262,7 @@ def get_mesh_hierarchy_nonconvex(n_ref, init_h_scale=1.0):  # noqa: PLR0915
             print(com)
             if np.allclose(com, [0.5, 0.275, 0]):
                 gmsh.model.addPhysicalGroup(2, [surface[1]], omega_marker)
-            elif np.allclose(com, [0.5, 0.5, 0]):
+            elif np.allclose(com, [0.5, 0.6125, 0]):
                 gmsh.model.addPhysicalGroup(2, [surface[1]], b_withoutomega_marker)
             else:
                 gmsh.model.addPhysicalGroup(2, [surface[1]], rest_marker)
-- 
2.43.0


From fcbb505150a2e1b06ef2cf86955048621668c349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:52 +0000
Subject: [PATCH 18/21] fix: get_sparse_matrix keeps the shape of the matrix

---
 src/dxss/space_time.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 84cef21..a97f568 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -67,7 +67,8 @@ _DEFAULT_PARAMETERS = ProblemParameters()
 # TODO: this is duplicated... factor out to a "PETSc interface functions" file?
 def get_sparse_matrix(mat):
     ai, aj, av = mat.getValuesCSR()
-    return sp.csr_matrix((av, aj, ai))
+    # without the shape, scipy would drop trailing columns that hold no entry
+    return sp.csr_matrix((av, aj, ai), shape=(len(ai) - 1, mat.getSize()[1]))
 
 
 class SpaceTime:
-- 
2.43.0


From 3f83611a79013a8aa321470a450c5980058c4177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 19/21] fix: set up the first slab's matrix and form when they
 are requested

---
 src/dxss/space_time.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index a97f568..3ecf1c7 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1118,9 +1118,13 @@ class SpaceTime:
         return self.slab_matrix
 
     def get_slab_bfi_first_slab(self):
+        if not self.SlabBfiFirstSlab:
+            self.setup_slab_matrix(with_jumps=self.well_posed)
         return self.SlabBfiFirstSlab
 
     def get_slab_matrix_first_slab(self):
+        if not self.SlabMatFirstSlab:
+            self.setup_slab_matrix(with_jumps=self.well_posed)
         return self.SlabMatFirstSlab
 
     def set_solver_first_slab(self, solver):
-- 
2.43.0


From d59f2b722d20f48a080555e6ee30f6eefb8c99d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:04 +0000
Subject: [PATCH 20/21] fix: raise when the solution GMRes reports as converged
 misses the tolerance

For singular systems the recursive estimate of the residual norm can vanish
although the residual does not; a vector that solves nothing was returned.
---
 src/dxss/gmres.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/dxss/gmres.py b/src/dxss/gmres.py
index c00c2b2..ecddcf5 100644
--- a/src/dxss/gmres.py
+++ b/src/dxss/gmres.py
@@ -106,4 +106,19 @@ def get_gmres_solution(
     A_shell.mult(x, r)
     r.aypx(-1.0, b)  # r = b - A x
 
+    # GMRes checks a recursive estimate of the residual norm only. If the system is
+    # singular, it can vanish although the residual does not: that is no solution.
+    reasons = PETSc.KSP.ConvergedReason
+    if (
+        ksp_reason in (reasons.CONVERGED_RTOL, reasons.CONVERGED_ATOL)
+        and ksp.getNormType() == PETSc.KSP.NormType.PRECONDITIONED
+    ):
+        z = r.duplicate()
+        pc.apply(r, z)
+        initial_norm = ksp.getConvergenceHistory()[0]
+        rtol, atol, _, _ = ksp.getTolerances()
+        if not z.norm() <= max(atol, rtol * initial_norm) + 1e-3 * initial_norm:
+            PETSc.Sys.Print("The residual of the solution misses the tolerance.")
+            raise PETSc.Error
+
     return (x, r)
-- 
2.43.0


From db57504a5e3ca11ab1e1bc9883ea4babcdf168ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:20 +0000
Subject: [PATCH 21/21] fix: GMRES on vectors that are not laid out like
 PETSc's default on COMM_WORLD

The shell matrix was created on COMM_WORLD with PETSc's default distribution,
so that a right-hand side with another distribution, or on another
communicator, was refused (or blocked the run).
---
 src/dxss/gmres.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/dxss/gmres.py b/src/dxss/gmres.py
index ecddcf5..693fe39 100644
--- a/src/dxss/gmres.py
+++ b/src/dxss/gmres.py
@@ -50,10 +50,14 @@ def get_gmres_solution(
     # Renaming for readability and consistency with PETSc docs. Potentially a minor inefficiency.
     context = A
 
-    N = b.getSize()  # noqa: N806 | global vector size variables use uppercase in PETSc
-
-    # Create a PETSc shell matrix of appropriate global size (N x N)
-    A_shell = PETSc.Mat().createPython(N, context)  # noqa: N806 | convention for matrix
+    sizes = b.getSizes()
+
+    # Create a PETSc shell matrix of appropriate global size (N x N), distributed like b
+    A_shell = PETSc.Mat().createPython(  # noqa: N806 | convention for matrix
+        (sizes, sizes),
+        context,
+        comm=b.getComm(),
+    )
     A_shell.setUp()
 
     ksp = PETSc.KSP()
-- 
2.43.0

