From 7ea819f5fc82d33b432acd2ae396a4ccc226cd1b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:16:32 +0000
Subject: [PATCH 01/14] fix: linear solver uses the boundary values of the call
 and differentiates them

create_linear_solver imposed the runtime boundary values only through the
residual: with symmetric elimination the columns are dropped, so a guess
without those values gave a wrong solution, and the adjoint lacked the
K_fb contribution to the boundary-value gradient.
---
 feax/solvers/linear.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/feax/solvers/linear.py b/feax/solvers/linear.py
index 33ae34b..5377a31 100644
--- a/feax/solvers/linear.py
+++ b/feax/solvers/linear.py
@@ -23,6 +23,7 @@ import jax.numpy as np
 from ..assembler import (
     create_J_bc_csr_function,
     create_J_bc_csr_parametric,
+    create_matfree_Kt_parametric,
     create_matfree_res_J_parametric,
     create_res_bc_parametric,
     detect_zero_surface_jacobian,
@@ -322,6 +323,7 @@ def create_linear_solver(
             problem, traced_params, traced_structure)
     # Matrix-free operator (fused BC-applied residual + JVP matvec) for Krylov.
     matfree_res_J_param = create_matfree_res_J_parametric(problem, symmetric=symmetric_elimination)
+    matfree_Kt_param = create_matfree_Kt_parametric(problem)
     res_bc_parametric = create_res_bc_parametric(problem)
     linear_solve_fn = create_linear_solve_fn(
         solver_options,
@@ -423,11 +425,21 @@ def create_linear_solver(
         sol = differentiable_solve(traced_params, initial_guess, effective_bc, ts)
         return sol, (traced_params, sol, effective_bc, ts)
 
+    def _bc_corrected(adjoint_vec, v, sol, traced_params, effective_bc, ts):
+        # Symmetric elimination removes K_fb from the operator, so the BC rows
+        # of the adjoint have to be recovered: λ_bc = v_bc - (K^T λ_free)_bc.
+        if not symmetric_elimination:
+            return adjoint_vec
+        bc_rows = effective_bc.bc_rows
+        ktw = matfree_Kt_param(sol, traced_params, ts)(adjoint_vec.at[bc_rows].set(0.0))
+        return adjoint_vec.at[bc_rows].set(v[bc_rows] - ktw[bc_rows])
+
     def f_bwd(res, v):
         if _reuse_factor:
             # Reuse the forward factorization: λ = J⁻ᵀ v = J⁻¹ v (symmetric).
             traced_params, sol, effective_bc, ts, token = res
             adjoint_vec = _solve_with(token, v, device_id=_dev_id)
+            adjoint_vec = _bc_corrected(adjoint_vec, v, sol, traced_params, effective_bc, ts)
 
             def res_fn(tp, bc_arg):
                 return problem.unflatten_fn_sol_list(
@@ -465,6 +477,7 @@ def create_linear_solver(
             effective_bc,
             linear_solve_fn=adjoint_linear_solve_fn
         )
+        adjoint_vec = _bc_corrected(adjoint_vec, v, sol, traced_params, effective_bc, ts)
 
         # VJP of residual w.r.t. traced_params and bc
         def res_fn(tp, bc_arg):
@@ -494,6 +507,9 @@ def create_linear_solver(
         ig = default_initial_guess if (can_omit_initial_guess and initial_guess is None) else initial_guess
         if ig is None:
             ig = default_initial_guess
+        # The single solve eliminates the BC columns, so the guess has to carry
+        # the boundary values of this call.
+        ig = np.asarray(ig).at[effective_bc.bc_rows].set(effective_bc.bc_vals)
         return differentiable_solve(traced_params, ig, effective_bc, traced_structure)
 
     return solver_wrapper
-- 
2.43.0


From 1d3943dbc7e6a6cf63d32415b75ae73d30a8f9dd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:16:32 +0000
Subject: [PATCH 02/14] fix: create_solver(linear=True) forwards
 symmetric_elimination

---
 feax/solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/feax/solver.py b/feax/solver.py
index 8556fab..5079659 100644
--- a/feax/solver.py
+++ b/feax/solver.py
@@ -399,6 +399,7 @@ def create_solver(
             solver_options=linear_options,
             adjoint_solver_options=adjoint_linear_options,
             traced_params=traced_params,
+            symmetric_elimination=symmetric_elimination,
             traced_structure=traced_structure,
         ))
 
-- 
2.43.0


From 88b111a57d3d8f26ec1c171c3d4cab7bfcd45aaa Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:16:50 +0000
Subject: [PATCH 03/14] fix: resolving an automatic Krylov solver keeps the
 restart length

---
 feax/solvers/options.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/feax/solvers/options.py b/feax/solvers/options.py
index 74d7749..c3bb984 100644
--- a/feax/solvers/options.py
+++ b/feax/solvers/options.py
@@ -874,6 +874,7 @@ def resolve_iterative_solver(
         tol=options.tol,
         atol=options.atol,
         maxiter=options.maxiter,
+        restart=options.restart,
         preconditioner=options.preconditioner,
         use_jacobi_preconditioner=options.use_jacobi_preconditioner,
         jacobi_shift=options.jacobi_shift,
-- 
2.43.0


From c91ef15151ee4637204dbf86e8a9bbcd89db9dd3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:19:45 +0000
Subject: [PATCH 04/14] fix: Krylov adjoint applies the transposed operator

With symmetric elimination the adjoint reused the forward matvec, which is
the transpose only when the bulk tangent is symmetric; gradients of
problems with a non-symmetric tangent were wrong.
---
 feax/solvers/linear.py | 11 ++++++-----
 feax/solvers/newton.py |  7 +++++--
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/feax/solvers/linear.py b/feax/solvers/linear.py
index 5377a31..973125e 100644
--- a/feax/solvers/linear.py
+++ b/feax/solvers/linear.py
@@ -196,9 +196,7 @@ def create_linear_solver(
         structure before any JAX tracing. Recommended when using cuDSS and
         composing ``jax.jit`` with ``jax.grad``.
     symmetric_elimination : bool, default True
-        Use symmetric Dirichlet elimination (zero BC rows *and* columns). Linear
-        FE operators are symmetric after symmetric elimination, so the Krylov
-        adjoint reuses the forward matvec (``Jᵀ = J``).
+        Use symmetric Dirichlet elimination (zero BC rows *and* columns).
 
     Returns
     -------
@@ -465,8 +463,11 @@ def create_linear_solver(
                 J, src.csr_T_perm, src.csr_T_indptr, src.csr_T_indices
             ) if use_transpose else J
         elif symmetric_elimination:
-            # Symmetric BC ⇒ J is symmetric ⇒ Jᵀ = J (matrix-free matvec).
-            _, J_adjoint = matfree_res_J_param(sol, traced_params, effective_bc, ts)
+            # Jᵀ of the eliminated operator: identity on BC entries, K_ffᵀ on the
+            # free ones (the elimination does not make K itself symmetric).
+            _Kt = matfree_Kt_param(sol, traced_params, ts)
+            _mask = effective_bc.bc_mask
+            J_adjoint = lambda w: np.where(_mask, w, _Kt(np.where(_mask, 0.0, w)))
         else:
             # Non-symmetric BC: Jᵀ is the VJP of the BC-applied residual.
             _, _vjp = jax.vjp(
diff --git a/feax/solvers/newton.py b/feax/solvers/newton.py
index 9f5435b..f10dbbc 100644
--- a/feax/solvers/newton.py
+++ b/feax/solvers/newton.py
@@ -1042,8 +1042,11 @@ def create_callback_newton_solver(
                 J, src.csr_T_perm, src.csr_T_indptr, src.csr_T_indices
             ) if use_transpose else J
         elif symmetric_elimination:
-            # Symmetric BC ⇒ J is symmetric ⇒ Jᵀ = J (matrix-free matvec).
-            _, J_adjoint = matfree_res_J_param(sol, traced_params, effective_bc, ts)
+            # Jᵀ of the eliminated operator: identity on BC entries, K_ffᵀ on the
+            # free ones (the elimination does not make K itself symmetric).
+            _Kt = matfree_Kt_param(sol, traced_params, ts)
+            _mask = effective_bc.bc_mask
+            J_adjoint = lambda w: np.where(_mask, w, _Kt(np.where(_mask, 0.0, w)))
         else:
             # Non-symmetric BC: Jᵀ is the VJP of the BC-applied residual.
             _, _vjp = jax.vjp(
-- 
2.43.0


From c040f44b4193c1c269b6206e11d09c61b9767b4b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:22:30 +0000
Subject: [PATCH 05/14] fix: boundary-value gradient of Newton solves with
 one-triangle storage

The K_fb correction multiplied with the stored triangle only.
---
 feax/solvers/newton.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/feax/solvers/newton.py b/feax/solvers/newton.py
index f10dbbc..1e07384 100644
--- a/feax/solvers/newton.py
+++ b/feax/solvers/newton.py
@@ -1060,10 +1060,11 @@ def create_callback_newton_solver(
 
         # Symmetric-elimination BC correction so bc_vals gradients are correct:
         #   λ_bc = v_bc - K_fb^T λ_free,  with K_bulk the un-eliminated Jacobian
-        #   (assembled transpose for direct, matrix-free VJP for Krylov).
+        #   (assembled transpose for direct with full storage, matrix-free VJP
+        #   for Krylov and for one-triangle storage).
         if _needs_bc_correction:
             lambda_free = adjoint_vec.at[effective_bc.bc_rows].set(0.0)
-            if _adj_direct:
+            if _adj_direct and use_transpose:
                 sol_list = problem.unflatten_fn_sol_list(sol)
                 kdata, kindptr, kindices = _get_J_csr(problem, sol_list, traced_params, ts)
                 K_bulk = CSRMatrix(kdata, kindptr, kindices,
-- 
2.43.0


From de496b91a1bd3d3b51b5b70d5e8bba09879254ac Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:37:14 +0000
Subject: [PATCH 06/14] fix: reject direct solvers that cannot use the stored
 triangle

With matrix_view UPPER or LOWER the LU backends solved the stored triangle
as if it were the matrix, and CHOLMOD could be told to read the triangle
that is not stored; both silently returned wrong solutions.
---
 feax/solver.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/feax/solver.py b/feax/solver.py
index 5079659..9664c1f 100644
--- a/feax/solver.py
+++ b/feax/solver.py
@@ -22,7 +22,7 @@ from jax.experimental.sparse import BCOO
 
 from .assembler import create_J_bc_csr_function
 from .DCboundary import DirichletBC
-from .problem import Problem
+from .problem import MatrixView, Problem
 from .solvers.linear import (
     create_linear_solver,
 )
@@ -372,6 +372,22 @@ def create_solver(
                 adjoint_linear_options = resolve_iterative_solver(adjoint_linear_options, _mp)
             print(f"[feax] Auto adjoint solver ({_category}): backend={_backend.name}, matrix_property={_mp.name} -> {adjoint_linear_options.solver}")
 
+    # The LU backends factorize the stored entries as the whole matrix, so a
+    # one-triangle view would silently be solved as a triangular system.
+    if problem.matrix_view in (MatrixView.UPPER, MatrixView.LOWER):
+        for _role, _opts in (("solver_options", linear_options),
+                             ("adjoint_solver_options", adjoint_linear_options)):
+            if isinstance(_opts, DirectSolverOptions) and _opts.solver in ("spsolve", "umfpack"):
+                raise ValueError(
+                    f"{_role}: direct solver '{_opts.solver}' needs the full matrix, but the "
+                    f"problem stores matrix_view={problem.matrix_view.name}. Use "
+                    "matrix_view=MatrixView.FULL or a symmetric solver (cholmod, cudss).")
+            if (isinstance(_opts, DirectSolverOptions) and _opts.solver == "cholmod"
+                    and _opts.sksparse_options.lower != (problem.matrix_view == MatrixView.LOWER)):
+                raise ValueError(
+                    f"{_role}: sksparse_options.lower={_opts.sksparse_options.lower} reads the "
+                    f"triangle that matrix_view={problem.matrix_view.name} does not store.")
+
     # Foot-gun guard: symmetric_elimination=False produces a NON-symmetric
     # tangent, but cuDSS defaults to matrix_type=SYMMETRIC (LDLT) — that
     # combination silently factorizes a symmetrized matrix and Newton stalls
-- 
2.43.0


From a07fd84c6dac75a07c61e51ddb22fed4b8d89c50 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:40:38 +0000
Subject: [PATCH 07/14] fix: distributed.initialize uses the configured
 coordinator port

The launcher exports JAX_COORD_PORT from the configuration, but the
processes always connected to port 1234.
---
 feax/distributed/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/feax/distributed/__init__.py b/feax/distributed/__init__.py
index c463e46..45e1d37 100644
--- a/feax/distributed/__init__.py
+++ b/feax/distributed/__init__.py
@@ -26,8 +26,8 @@ import jax
 def initialize():
     """Initialize JAX distributed runtime from environment variables.
 
-    Reads JAX_COORD_ADDR, JAX_NUM_PROCESSES, and JAX_PROCESS_ID from
-    the environment. If JAX_COORD_ADDR is not set, does nothing
+    Reads JAX_COORD_ADDR, JAX_COORD_PORT (default 1234), JAX_NUM_PROCESSES,
+    and JAX_PROCESS_ID from the environment. If JAX_COORD_ADDR is not set, does nothing
     (single-node mode).
 
     Returns:
@@ -36,7 +36,7 @@ def initialize():
     coord = os.environ.get("JAX_COORD_ADDR")
     if coord:
         jax.distributed.initialize(
-            coordinator_address=f"{coord}:1234",
+            coordinator_address=f"{coord}:{os.environ.get('JAX_COORD_PORT', '1234')}",
             num_processes=int(os.environ["JAX_NUM_PROCESSES"]),
             process_id=int(os.environ["JAX_PROCESS_ID"]),
         )
-- 
2.43.0


From da9bcd37a3ce9d5b5dc4c45c2326e8521ac69816 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:40:38 +0000
Subject: [PATCH 08/14] fix: the launcher passes the script arguments to the
 workers

Only the coordinator received them, so the processes of one run executed
the script with different arguments.
---
 feax/distributed/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/feax/distributed/__init__.py b/feax/distributed/__init__.py
index 45e1d37..0a614f1 100644
--- a/feax/distributed/__init__.py
+++ b/feax/distributed/__init__.py
@@ -17,6 +17,7 @@ Usage as CLI launcher:
 """
 
 import os
+import shlex
 import subprocess
 import sys
 
@@ -143,6 +144,8 @@ def _launch(config_path, script, script_args):
             f" -e JAX_PROCESS_ID={i}"
             f" {container} python3 -"
         )
+        if script_args:
+            docker_cmd += " " + " ".join(shlex.quote(a) for a in script_args)
         ssh_cmd.append(docker_cmd)
 
         with open(script) as f:
-- 
2.43.0


From 79a97ad4b328143b55f1999e26c7d740841d47a5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:40:38 +0000
Subject: [PATCH 09/14] fix: 3D periodic pairings of unit cells that do not
 start at the origin

Faces and edges were looked up at 0 and at the cell size instead of at the
lower and upper bounds, so only the corners of a shifted cell were paired.
---
 feax/flat/pbc.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/feax/flat/pbc.py b/feax/flat/pbc.py
index 1235a67..18459d9 100644
--- a/feax/flat/pbc.py
+++ b/feax/flat/pbc.py
@@ -337,12 +337,13 @@ def periodic_bc_3D(
         - Each geometric pairing is replicated for each DoF component
     """
 
-    L = unitcell.ub - unitcell.lb
+    lb, ub = unitcell.lb, unitcell.ub
+    L = ub - lb
 
     face_pairs = []
     for axis in range(dim):
-        master_fn = unitcell.face_function(axis, 0, excluding_edge=True)
-        slave_fn = unitcell.face_function(axis, L[axis], excluding_edge=True)
+        master_fn = unitcell.face_function(axis, lb[axis], excluding_edge=True)
+        slave_fn = unitcell.face_function(axis, ub[axis], excluding_edge=True)
         for i in range(vec):
             face_pairs.append(
                 PeriodicPairing(
@@ -352,8 +353,9 @@ def periodic_bc_3D(
 
     edge_pairs = []
     for axes in [[1, 2], [0, 2], [0, 1]]:
-        for values in [[L[axes[0]], 0], [L[axes[0]], L[axes[1]]], [0, L[axes[1]]]]:
-            master_fn = unitcell.edge_function(axes, [0, 0], excluding_corner=True)
+        a, b = axes
+        for values in [[ub[a], lb[b]], [ub[a], ub[b]], [lb[a], ub[b]]]:
+            master_fn = unitcell.edge_function(axes, [lb[a], lb[b]], excluding_corner=True)
             slave_fn = unitcell.edge_function(axes, values, excluding_corner=True)
             for i in range(vec):
                 edge_pairs.append(
-- 
2.43.0


From 6efc2f69e46b135b76b3c23fc27c799abdd0bebe Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:40:38 +0000
Subject: [PATCH 10/14] fix: DensityField orders the nodes of higher-order
 elements for basix

re_order lists the basix node of each mesh node; it was applied as its own
inverse, which holds for linear elements only.
---
 feax/gene/sdf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/feax/gene/sdf.py b/feax/gene/sdf.py
index f6943a9..2350300 100644
--- a/feax/gene/sdf.py
+++ b/feax/gene/sdf.py
@@ -515,7 +515,8 @@ class DensityField(SDF):
         # --- basix element info ---
         family, basix_ele, _, _, degree, re_order = get_elements(ele_type)
         self._basix_ele = basix_ele
-        self._re_order = onp.array(re_order)
+        # node j of the basix element is node argsort(re_order)[j] of the mesh cell
+        self._re_order = onp.argsort(re_order)
         self._element = basix.create_element(family, basix_ele, degree)
         self._ref_centroid = basix.geometry(basix_ele).mean(axis=0)
 
@@ -526,7 +527,7 @@ class DensityField(SDF):
 
         # --- Precompute per-element data ---
         # Node coordinates per element: (E, nodes_per_elem, dim)
-        self._elem_nodes = points[cells[:, re_order]]
+        self._elem_nodes = points[cells[:, self._re_order]]
 
         if self._linear_simplex:
             # Direct barycentric: x = v0 + T @ lam
-- 
2.43.0


From 080cad21c840ddcfec6fcbd9345c8bc137e75b10 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:40:38 +0000
Subject: [PATCH 11/14] fix: write 8-node plane meshes as quadrilaterals

The writers labelled every 8-node cell a hexahedron.
---
 feax/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/feax/utils.py b/feax/utils.py
index 50752f4..a33fadc 100644
--- a/feax/utils.py
+++ b/feax/utils.py
@@ -58,7 +58,7 @@ def save_sol(
     elif n_nodes_per_element == 6:
         element_type = 'TRI6'
     elif n_nodes_per_element == 8:
-        element_type = 'HEX8'
+        element_type = 'QUAD8' if n_dim == 2 else 'HEX8'
     elif n_nodes_per_element == 10:
         element_type = 'TET10'
     elif n_nodes_per_element == 20:
@@ -171,6 +171,7 @@ _XDMF_TOPOLOGY_TYPE = {
     'TRI3': 'Triangle',
     'TRI6': 'Triangle_6',
     'QUAD4': 'Quadrilateral',
+    'QUAD8': 'Quadrilateral_8',
     'TET4': 'Tetrahedron',
     'TET10': 'Tetrahedron_10',
     'HEX8': 'Hexahedron',
@@ -251,7 +252,7 @@ class XDMFWriter:
         elif n_nodes_per_element == 6:
             element_type = 'TRI6'
         elif n_nodes_per_element == 8:
-            element_type = 'HEX8'
+            element_type = 'QUAD8' if n_dim == 2 else 'HEX8'
         elif n_nodes_per_element == 10:
             element_type = 'TET10'
         elif n_nodes_per_element == 20:
-- 
2.43.0


From b0c390adf3eb0cb5618b8120e690204095981179 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:47:43 +0000
Subject: [PATCH 12/14] fix: close the mesher session when volume meshing fails

to_volume_mesh and extract_volume_mesh left the gmsh session open when a
gmsh call raised.
---
 feax/gene/mesh_extraction.py | 61 +++++++++++++++++-----------------
 feax/gene/sdf.py             | 63 ++++++++++++++++++------------------
 2 files changed, 63 insertions(+), 61 deletions(-)

diff --git a/feax/gene/mesh_extraction.py b/feax/gene/mesh_extraction.py
index 4bda603..e5bce58 100644
--- a/feax/gene/mesh_extraction.py
+++ b/feax/gene/mesh_extraction.py
@@ -190,42 +190,43 @@ def extract_volume_mesh(
 
     # Step 4: Gmsh volume meshing
     gmsh.initialize()
-    gmsh.option.setNumber("General.Verbosity", 1)
-    gmsh.merge(stl_path)
-
-    gmsh.model.mesh.createTopology()
-    gmsh.model.mesh.classifySurfaces(
-        40 * 3.14159265 / 180,  # angle
-        True,                    # boundary
-        True,                    # forceParametrizablePatches
-    )
-    gmsh.model.mesh.createGeometry()
-
-    surfaces = gmsh.model.getEntities(2)
-    if not surfaces:
-        gmsh.finalize()
-        os.unlink(stl_path)
-        raise RuntimeError(
-            "Gmsh could not create surfaces from STL. "
-            "Try adjusting the threshold."
+    try:
+        gmsh.option.setNumber("General.Verbosity", 1)
+        gmsh.merge(stl_path)
+
+        gmsh.model.mesh.createTopology()
+        gmsh.model.mesh.classifySurfaces(
+            40 * 3.14159265 / 180,  # angle
+            True,                    # boundary
+            True,                    # forceParametrizablePatches
         )
+        gmsh.model.mesh.createGeometry()
 
-    loop = gmsh.model.geo.addSurfaceLoop([s[1] for s in surfaces])
-    gmsh.model.geo.addVolume([loop])
-    gmsh.model.geo.synchronize()
+        surfaces = gmsh.model.getEntities(2)
+        if not surfaces:
+            os.unlink(stl_path)
+            raise RuntimeError(
+                "Gmsh could not create surfaces from STL. "
+                "Try adjusting the threshold."
+            )
 
-    gmsh.option.setNumber("Mesh.CharacteristicLengthMin", mesh_size * 0.5)
-    gmsh.option.setNumber("Mesh.CharacteristicLengthMax", mesh_size)
+        loop = gmsh.model.geo.addSurfaceLoop([s[1] for s in surfaces])
+        gmsh.model.geo.addVolume([loop])
+        gmsh.model.geo.synchronize()
 
-    if element_type == 'TET10':
-        gmsh.option.setNumber("Mesh.ElementOrder", 2)
+        gmsh.option.setNumber("Mesh.CharacteristicLengthMin", mesh_size * 0.5)
+        gmsh.option.setNumber("Mesh.CharacteristicLengthMax", mesh_size)
 
-    gmsh.model.mesh.generate(3)
+        if element_type == 'TET10':
+            gmsh.option.setNumber("Mesh.ElementOrder", 2)
 
-    with tempfile.NamedTemporaryFile(suffix='.msh', delete=False) as f:
-        msh_path = f.name
-    gmsh.write(msh_path)
-    gmsh.finalize()
+        gmsh.model.mesh.generate(3)
+
+        with tempfile.NamedTemporaryFile(suffix='.msh', delete=False) as f:
+            msh_path = f.name
+        gmsh.write(msh_path)
+    finally:
+        gmsh.finalize()
 
     # Step 5: convert to feax Mesh
     msh_data = meshio.read(msh_path)
diff --git a/feax/gene/sdf.py b/feax/gene/sdf.py
index 2350300..5eb8148 100644
--- a/feax/gene/sdf.py
+++ b/feax/gene/sdf.py
@@ -229,43 +229,44 @@ class SDF(ABC):
             mesh_size = diag / resolution * 2.0
 
         gmsh.initialize()
-        gmsh.option.setNumber("General.Verbosity", 1)
-        gmsh.merge(stl_path)
-
-        gmsh.model.mesh.createTopology()
-        gmsh.model.mesh.classifySurfaces(
-            angle=40 * 3.14159265 / 180,
-            boundary=True,
-            forceParametrizablePatches=True,
-        )
-        gmsh.model.mesh.createGeometry()
-
-        surfaces = gmsh.model.getEntities(2)
-        if not surfaces:
-            gmsh.finalize()
-            import os
-            os.unlink(stl_path)
-            raise RuntimeError(
-                "Gmsh could not create surfaces from STL. "
-                "Try increasing resolution or enabling watertight repair."
+        try:
+            gmsh.option.setNumber("General.Verbosity", 1)
+            gmsh.merge(stl_path)
+
+            gmsh.model.mesh.createTopology()
+            gmsh.model.mesh.classifySurfaces(
+                angle=40 * 3.14159265 / 180,
+                boundary=True,
+                forceParametrizablePatches=True,
             )
+            gmsh.model.mesh.createGeometry()
+
+            surfaces = gmsh.model.getEntities(2)
+            if not surfaces:
+                import os
+                os.unlink(stl_path)
+                raise RuntimeError(
+                    "Gmsh could not create surfaces from STL. "
+                    "Try increasing resolution or enabling watertight repair."
+                )
 
-        loop = gmsh.model.geo.addSurfaceLoop([s[1] for s in surfaces])
-        gmsh.model.geo.addVolume([loop])
-        gmsh.model.geo.synchronize()
+            loop = gmsh.model.geo.addSurfaceLoop([s[1] for s in surfaces])
+            gmsh.model.geo.addVolume([loop])
+            gmsh.model.geo.synchronize()
 
-        gmsh.option.setNumber("Mesh.CharacteristicLengthMin", mesh_size * 0.5)
-        gmsh.option.setNumber("Mesh.CharacteristicLengthMax", mesh_size)
+            gmsh.option.setNumber("Mesh.CharacteristicLengthMin", mesh_size * 0.5)
+            gmsh.option.setNumber("Mesh.CharacteristicLengthMax", mesh_size)
 
-        if element_type == 'TET10':
-            gmsh.option.setNumber("Mesh.ElementOrder", 2)
+            if element_type == 'TET10':
+                gmsh.option.setNumber("Mesh.ElementOrder", 2)
 
-        gmsh.model.mesh.generate(3)
+            gmsh.model.mesh.generate(3)
 
-        with tempfile.NamedTemporaryFile(suffix='.msh', delete=False) as f:
-            msh_path = f.name
-        gmsh.write(msh_path)
-        gmsh.finalize()
+            with tempfile.NamedTemporaryFile(suffix='.msh', delete=False) as f:
+                msh_path = f.name
+            gmsh.write(msh_path)
+        finally:
+            gmsh.finalize()
 
         # Step 4: read back as feax Mesh
         msh_data = meshio.read(msh_path)
-- 
2.43.0


From 35d282cf93eb07edf64bfd01fba75f36f088a0d9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:47:43 +0000
Subject: [PATCH 13/14] fix: DensityField inverse map solves with the Jacobian,
 not its transpose

The Newton steps that locate a point in an element used the transposed
Jacobian, so they converged for axis-aligned elements only.
---
 feax/gene/sdf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/feax/gene/sdf.py b/feax/gene/sdf.py
index 5eb8148..f774df0 100644
--- a/feax/gene/sdf.py
+++ b/feax/gene/sdf.py
@@ -617,7 +617,7 @@ class DensityField(SDF):
             dN = tab[1:, 0, :, 0]             # (dim, nodes)  basix order
 
             x_current = N @ elem_pts          # (dim,)
-            J = dN @ elem_pts                 # (dim, dim)
+            J = elem_pts.T @ dN.T             # (dim, dim), J[k, d] = dx_k/dxi_d
 
             residual = x_current - p
             res_norm = onp.linalg.norm(residual)
@@ -797,8 +797,8 @@ class DensityField(SDF):
 
             # x(xi) = sum_j N_j * x_j  for each query point
             x_current = onp.einsum('nj,njk->nk', N_vals, elem_pts)  # (N, dim)
-            # Jacobian: J[n,d,k] = sum_j dN[d,n,j] * elem_pts[n,j,k]
-            J = onp.einsum('dnj,njk->ndk', dN, elem_pts)  # (N, dim, dim)
+            # Jacobian: J[n,k,d] = dx_k/dxi_d = sum_j dN[d,n,j] * elem_pts[n,j,k]
+            J = onp.einsum('dnj,njk->nkd', dN, elem_pts)  # (N, dim, dim)
 
             residual = x_current - pts  # (N, dim)
             max_res = onp.max(onp.linalg.norm(residual, axis=1))
-- 
2.43.0


From e6e4c399a42da5323f0b955196db1df7e04ec943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:55 +0000
Subject: [PATCH 14/14] fix: SDF.to_volume_mesh passes the keyword gmsh has

classifySurfaces has no forceParametrizablePatches argument, so every call
raised TypeError.
---
 feax/gene/sdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feax/gene/sdf.py b/feax/gene/sdf.py
index f774df0..6b5f419 100644
--- a/feax/gene/sdf.py
+++ b/feax/gene/sdf.py
@@ -237,7 +237,7 @@ class SDF(ABC):
             gmsh.model.mesh.classifySurfaces(
                 angle=40 * 3.14159265 / 180,
                 boundary=True,
-                forceParametrizablePatches=True,
+                forReparametrization=True,
             )
             gmsh.model.mesh.createGeometry()
 
-- 
2.43.0

