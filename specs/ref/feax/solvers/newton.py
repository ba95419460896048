"""Newton solver for FEAX.

Provides:

* :func:`create_newton_solver` — the entry point used by ``feax.solver``. With
  ``extra_residual_fn`` it runs the hybrid matrix-free Newton-Krylov path;
  otherwise it delegates to the unified traced solver below.
* :func:`create_callback_newton_solver` — the standard nonlinear solver. The
  iteration is a traced ``jax.lax.while_loop`` (one Newton step per loop body;
  the graph does not grow with ``max_iter``), so it composes natively with
  ``jax.jit`` / ``jax.vmap`` / ``jax.grad``, with a CSR-direct fused
  residual+Jacobian forward and a single traced adjoint solve.
* :func:`create_armijo_line_search_scan` — the (vmap-friendly) line search.
"""

import logging
from typing import Optional

import jax
import jax.numpy as np

from ..assembler import (
    _get_J_csr,
    create_J_bc_csr_function,
    create_J_bc_csr_parametric,
    create_matfree_Kt_parametric,
    create_matfree_res_J_parametric,
    create_res_bc_parametric,
    create_res_J_bc_csr_parametric,
)
from ..csr import CSRMatrix, transpose_with_maps
from ..problem import MatrixView
from .common import (
    _safe_negate,
    check_convergence,
    create_jacobi_preconditioner,
    create_linear_solve_fn,
    create_x0,
    create_x0_parametric,
    prewarm_direct_solvers,
)
from .linear import linear_solve_adjoint
from .options import AMGSolverOptions, DirectSolverOptions, NewtonOptions

logger = logging.getLogger(__name__)


class NewtonLineSearchError(RuntimeError):
    """Raised when Armijo line search exhausts backtracks without a descent step.

    A failed line search means the proposed Newton direction is not a
    descent direction for the residual merit function ½‖r‖².  This is
    almost always a symptom of an inconsistent Jacobian, a bad linear
    solve, or a degenerate state, rather than a problem the line search
    itself can recover from — so the Python-loop Newton path raises this
    by default rather than silently truncating the iteration.
    """


def _ensure_verbose_logging():
    """Ensure the logger can emit INFO messages when verbose=True."""
    if logger.getEffectiveLevel() > logging.INFO:
        logger.setLevel(logging.INFO)
        if not logger.handlers and not logging.root.handlers:
            logger.addHandler(logging.StreamHandler())


def _create_differentiable_newton_solver(
    problem,
    bc,
    J_bc_func,
    res_bc_func,
    solve_fn,
    adjoint_solver_options,
    adjoint_linear_solve_fn,
    extra_res_bc_fn=None,
    bulk_J_bc_func=None,
    J_bc_parametric=None,
    res_bc_parametric=None,
    symmetric_elimination=True,
    J_adjoint_parametric=None,
    extra_rows_fn=None,
):
    """Create custom-VJP Newton solver wrapper around a prepared solve_fn.

    Parameters
    ----------
    extra_res_bc_fn : callable, optional
        BC-zeroed extra residual function (for hybrid adjoint solve).
    bulk_J_bc_func : callable, optional
        Original (unwrapped) bulk Jacobian function.  Required when
        ``extra_res_bc_fn`` is provided so the adjoint can construct
        ``J_adjoint_matvec(v) = J_bulk^T @ v + VJP(extra_res_bc, v)``.
    J_bc_parametric : callable, optional
        Parametric Jacobian ``(sol, tp, bc) -> BCOO`` for vmap over bc_vals.
    res_bc_parametric : callable, optional
        Parametric residual ``(sol, tp, bc) -> array`` for vmap over bc_vals.
    symmetric_elimination : bool, default True
        Whether symmetric BC elimination is used in the forward solve.
        When True, a correction is applied in the backward pass to account
        for the zeroed BC coupling columns (K_fb) in the Jacobian, which
        are needed for correct gradients w.r.t. bc_vals.
    J_adjoint_parametric : callable, optional
        Explicit adjoint operator ``(sol, tp, bc, ts) -> CSRMatrix`` (already
        transposed). Takes precedence over the hybrid-matvec and
        ``J.transpose()`` adjoints — used by the assembled-extra path, whose
        merged pattern has its own precomputed transpose maps.
    extra_rows_fn : callable, optional
        Extra residual with BC ROWS zeroed but BC columns kept. When given,
        its VJP contribution is added to the symmetric-elimination adjoint BC
        correction (the extra term's K_fb coupling).
    """
    _has_parametric = J_bc_parametric is not None and res_bc_parametric is not None
    # When symmetric BC elimination is used and we need bc_vals gradients,
    # the adjoint at BC DOFs must be corrected.  The symmetric Jacobian
    # zeros out K_fb columns, but the true residual Jacobian keeps them.
    # The correction is: λ_bc = v_bc - K_fb^T @ λ_free, computed via
    # the bulk (un-eliminated) Jacobian.
    _needs_adjoint_bc_correction = symmetric_elimination and _has_parametric

    @jax.custom_vjp
    def differentiable_solve(traced_params, initial_guess, bc_arg, ts):
        return solve_fn(traced_params, initial_guess, bc_arg, ts)[0]

    def f_fwd(traced_params, initial_guess, bc_arg, ts):
        sol = differentiable_solve(traced_params, initial_guess, bc_arg, ts)
        return sol, (traced_params, sol, bc_arg, ts)

    def f_bwd(res, v):
        traced_params, sol, effective_bc, ts = res

        # Choose parametric or closure-based functions for adjoint
        if _has_parametric:
            _res_fn = lambda dofs, tp: res_bc_parametric(dofs, tp, effective_bc, ts)
            _J_fn = lambda s, tp: J_bc_parametric(s, tp, effective_bc, ts)
        else:
            _res_fn = res_bc_func
            _J_fn = J_bc_func

        v_vec = jax.flatten_util.ravel_pytree(v)[0]

        if J_adjoint_parametric is not None:
            # Assembled adjoint on the merged (bulk ∪ extra) pattern, already
            # transposed via its precomputed maps.
            J_adjoint = J_adjoint_parametric(sol, traced_params, effective_bc, ts)
            adjoint_vec = linear_solve_adjoint(
                J_adjoint,
                v_vec,
                adjoint_solver_options,
                problem.matrix_view,
                effective_bc,
                linear_solve_fn=adjoint_linear_solve_fn,
            )
        elif extra_res_bc_fn is not None and bulk_J_bc_func is not None:
            # Hybrid adjoint: J_adjoint_matvec(v) = J_bulk^T @ v + VJP(extra_res_bc, v)
            J_bulk = bulk_J_bc_func(sol, traced_params, effective_bc, ts)
            _, vjp_extra = jax.vjp(extra_res_bc_fn, sol)

            def adjoint_matvec(w):
                Jtw_bulk = J_bulk.T @ w
                Jtw_extra, = vjp_extra(w)
                return Jtw_bulk + Jtw_extra

            adjoint_vec = linear_solve_adjoint(
                adjoint_matvec,
                v_vec,
                adjoint_solver_options,
                problem.matrix_view,
                effective_bc,
                linear_solve_fn=adjoint_linear_solve_fn,
            )
        else:
            J = _J_fn(sol, traced_params)

            use_transpose = True
            if problem.matrix_view in (MatrixView.UPPER, MatrixView.LOWER):
                use_transpose = False
                logger.debug(
                    "Using J directly (no transpose) for adjoint solve with problem.matrix_view=%s",
                    problem.matrix_view.name,
                )

            J_adjoint = J.transpose() if use_transpose else J
            adjoint_vec = linear_solve_adjoint(
                J_adjoint,
                v_vec,
                adjoint_solver_options,
                problem.matrix_view,
                effective_bc,
                linear_solve_fn=adjoint_linear_solve_fn,
            )

        # Correct adjoint at BC DOFs for symmetric BC elimination.
        # The symmetric Jacobian J_sym has zeroed BC columns, so the adjoint
        # solve J_sym^T λ = v gives correct λ_free but wrong λ_bc = v_bc.
        # The true adjoint satisfies J_true^T λ = v where J_true keeps BC
        # columns (K_fb).  Since J_true^T is block lower-triangular:
        #   λ_free = K_ff^{-T} v_free  (same as symmetric, already correct)
        #   λ_bc = v_bc - K_fb^T λ_free  (correction needed)
        if _needs_adjoint_bc_correction:
            sol_list_for_correction = problem.unflatten_fn_sol_list(sol)
            kdata, kindptr, kindices = _get_J_csr(
                problem, sol_list_for_correction, traced_params, ts)
            K_bulk = CSRMatrix(kdata, kindptr, kindices,
                               (problem.num_total_dofs_all_vars,) * 2)
            # Isolate λ_free by zeroing BC entries
            lambda_free_padded = adjoint_vec.at[effective_bc.bc_rows].set(0.0)
            # K_fb^T @ λ_free = (K_bulk^T @ λ_free_padded)[bc_rows]
            correction = K_bulk.rmatvec(lambda_free_padded)[effective_bc.bc_rows]
            if extra_rows_fn is not None:
                # Extra term's K_fb coupling (rows zeroed, BC columns kept).
                _, _vjp_x = jax.vjp(extra_rows_fn, sol)
                correction = correction + _vjp_x(lambda_free_padded)[0][effective_bc.bc_rows]
            adjoint_vec = adjoint_vec.at[effective_bc.bc_rows].set(
                v_vec[effective_bc.bc_rows] - correction
            )

        # VJP of residual w.r.t. traced_params and bc
        adjoint_list = problem.unflatten_fn_sol_list(adjoint_vec)
        sol_list = problem.unflatten_fn_sol_list(sol)

        if _has_parametric:
            def res_fn_params(tp, bc_arg):
                dofs = jax.flatten_util.ravel_pytree(sol_list)[0]
                return problem.unflatten_fn_sol_list(
                    res_bc_parametric(dofs, tp, bc_arg, ts)
                )

            _, f_vjp = jax.vjp(res_fn_params, traced_params, effective_bc)
            vjp_iv, vjp_bc = f_vjp(adjoint_list)
            vjp_iv = jax.tree_util.tree_map(_safe_negate, vjp_iv)
            vjp_bc = jax.tree_util.tree_map(_safe_negate, vjp_bc)
        else:
            def res_fn_iv(tp):
                dofs = jax.flatten_util.ravel_pytree(sol_list)[0]
                return problem.unflatten_fn_sol_list(
                    res_bc_func(dofs, tp)
                )

            _, f_vjp = jax.vjp(res_fn_iv, traced_params)
            vjp_iv, = f_vjp(adjoint_list)
            vjp_iv = jax.tree_util.tree_map(_safe_negate, vjp_iv)
            vjp_bc = None

        return (vjp_iv, None, vjp_bc, None)

    differentiable_solve.defvjp(f_fwd, f_bwd)

    def solver_with_bc(traced_params, initial_guess, bc=None, traced_structure=None):
        """Differentiable Newton solver with optional BC override.

        Parameters
        ----------
        traced_params : TracedParams
            Internal variables (material parameters, loads, etc.).
        initial_guess : jnp.ndarray
            Initial guess for the Newton solve.
        bc : DirichletBC, optional
            Override boundary conditions.  When provided, the forward
            solve uses this BC instead of the one captured at construction.
            The ``bc_rows`` / ``bc_mask`` must match the original BC
            (same constrained DOFs); only ``bc_vals`` should differ.
        traced_structure : TracedStructure, optional
            Structural arrays passed as runtime arguments to the jitted
            per-iteration kernels (and the traced adjoint), so nothing
            mesh-sized is baked into their compilation caches.
        """
        from ..DCboundary import DirichletBC
        effective_bc = bc if isinstance(bc, DirichletBC) else _default_bc
        return differentiable_solve(traced_params, initial_guess, effective_bc, traced_structure)

    _default_bc = bc
    return solver_with_bc


def _create_amg_rebuild_newton_solver(problem, bc, amg_options, newton_options,
                                      traced_params, symmetric_elimination, traced_structure):
    """Newton solver that rebuilds the AMG preconditioner from the current tangent.

    Runs a host Python Newton loop (PyAMG hierarchy builds cannot live inside a
    traced ``lax.while_loop``), but the per-iteration kernels — residual/Jacobian
    assembly and the preconditioned Krylov solve — are individually ``jax.jit``-ed,
    so each step runs as compiled programs rather than eager op-by-op dispatch. The
    jitted solve is bound to the current preconditioner and reused across steps;
    it is recompiled only when the hierarchy is rebuilt (rare under adaptive lag).
    The adjoint builds its preconditioner from the converged tangent (never stale).
    The loop itself is host-driven (not one fused jit), and not vmap-able; use
    ``rebuild_every=0`` for a fully traced/vmap/grad solve with a fixed precond.
    """
    import jax.scipy.sparse.linalg as jsla
    from .amg import build_amg_preconditioner, make_self_preconditioned_amg_solve

    res_bc_param = create_res_bc_parametric(problem)
    J_csr_param = create_J_bc_csr_parametric(problem, symmetric=symmetric_elimination)
    krylov_name = amg_options.solver if amg_options.solver != "auto" else "gmres"
    krylov = getattr(jsla, krylov_name)
    _adaptive = amg_options.rebuild_every is None        # adaptive lag
    _period = None if _adaptive else max(1, int(amg_options.rebuild_every))
    _lag_tol = amg_options.lag_tol
    _verbose = newton_options.verbose

    # JIT the per-iteration kernels so each Newton step runs as compiled programs
    # (not eager op-by-op dispatch). The host loop only orchestrates + builds the
    # PyAMG hierarchy (which can't be traced); the heavy work is jitted.
    res_jit = jax.jit(res_bc_param)
    J_jit = jax.jit(J_csr_param)

    def _make_solve(M):
        """A jitted Krylov solve bound to a fixed preconditioner ``M``.

        ``J`` (CSRMatrix) and ``b`` are traced args, so the SAME compiled solve is
        reused across Newton steps (only the values change). Rebuilt only when the
        hierarchy ``M`` changes, which with adaptive lag is rare."""
        @jax.jit
        def _s(J, b):
            kw = dict(x0=np.zeros_like(b), M=M, tol=amg_options.tol,
                      atol=amg_options.atol, maxiter=amg_options.maxiter)
            if krylov_name == "gmres":
                kw["restart"] = amg_options.restart or 50
            du, _ = krylov(lambda v: J @ v, b, **kw)
            return du
        return _s

    def solve_fn(traced_params, initial_sol, bc_arg, ts=None):
        sol = initial_sol
        res = res_jit(sol, traced_params, bc_arg, ts)
        res_norm = float(np.linalg.norm(res))
        init_norm = res_norm
        M = None
        solve_jit = None
        nbuild = 0
        for it in range(newton_options.max_iter):
            if res_norm < newton_options.tol:
                break
            if it > 0 and res_norm / (init_norm + 1e-30) < newton_options.rel_tol:
                break
            J = J_jit(sol, traced_params, bc_arg, ts)
            b = -res
            bnorm = float(np.linalg.norm(b)) + 1e-30

            # Decide whether to (re)build the hierarchy this step.
            fresh = False
            if M is None or (not _adaptive and it % _period == 0):
                M = build_amg_preconditioner(problem, bc, J, amg_options)
                solve_jit = _make_solve(M); nbuild += 1; fresh = True

            du = solve_jit(J, b)

            # Adaptive lag: if the lagged preconditioner could not solve the
            # current tangent to lag_tol, rebuild from J and re-solve this step.
            if _adaptive and not fresh:
                lin_res = float(np.linalg.norm(J @ du - b)) / bnorm
                if lin_res > _lag_tol:
                    M = build_amg_preconditioner(problem, bc, J, amg_options)
                    solve_jit = _make_solve(M); nbuild += 1
                    du = solve_jit(J, b)

            # Backtracking line search (accept any residual decrease).
            alpha, ok = 1.0, False
            for _ in range(newton_options.line_search_max_backtracks):
                trial = sol + alpha * du
                tr = res_jit(trial, traced_params, bc_arg, ts)
                trn = float(np.linalg.norm(tr))
                if trn < res_norm:
                    ok = True
                    break
                alpha *= newton_options.line_search_rho
            if not ok:
                break
            sol, res, res_norm = trial, tr, trn
            if _verbose:
                print(f"[AMG-rebuild Newton] iter {it}: ||res||={res_norm:.3e} "
                      f"rel={res_norm/(init_norm+1e-30):.3e} alpha={alpha:.3g} "
                      f"builds={nbuild}", flush=True)
        converged = (res_norm < newton_options.tol) or \
                    (res_norm / (init_norm + 1e-30) < newton_options.rel_tol)
        if _verbose:
            print(f"[AMG-rebuild Newton] done: {nbuild} hierarchy build(s) over "
                  f"{it+1} Newton iters", flush=True)
        return sol, res_norm, converged

    adjoint_solve = make_self_preconditioned_amg_solve(problem, bc, amg_options)
    return _create_differentiable_newton_solver(
        problem=problem, bc=bc, J_bc_func=None, res_bc_func=None,
        solve_fn=solve_fn,
        adjoint_solver_options=amg_options,
        adjoint_linear_solve_fn=adjoint_solve,
        J_bc_parametric=J_csr_param,
        res_bc_parametric=res_bc_param,
        symmetric_elimination=symmetric_elimination,
    )


def _create_assembled_extra_newton_solver(
    problem, bc, linear_options, adjoint_linear_options, newton_options,
    extra_residual_fn, symmetric_elimination, traced_structure,
):
    """Newton solver with an ASSEMBLED extra residual Jacobian (direct solvers).

    The extra term's Jacobian sparsity is detected once via ASD
    (:func:`feax.asd.sparse_jacobian_fn` — asdex jaxpr analysis + coloring), its
    pattern is merged with the bulk CSR pattern, and every Newton step assembles
    ``J_total = J_bulk + J_extra`` on the merged pattern — so direct solvers
    (cuDSS / spsolve / ...) factorize the EXACT tangent, unlike the hybrid
    matrix-free path which is restricted to Krylov.

    The Newton loop is host-driven (like the hybrid path) with jitted
    per-iteration kernels; the adjoint solves the assembled transposed merged
    operator (precomputed transpose maps).
    """
    from ..asd import merge_csr_patterns, sparse_jacobian_fn
    from ..utils import zero_like_initial_guess
    import numpy as onp
    import scipy.sparse as sp

    if problem.matrix_view is not MatrixView.FULL:
        raise ValueError(
            "extra_residual_fn with DirectSolverOptions requires "
            "MatrixView.FULL (the merged pattern is general nonsymmetric).")

    bc_rows = bc.bc_rows

    def extra_res_bc(sol):
        """Extra residual with BC rows zeroed (and, under symmetric
        elimination, BC columns removed from the tangent via stop_gradient —
        the value is unchanged)."""
        if symmetric_elimination:
            sol = sol.at[bc_rows].set(jax.lax.stop_gradient(sol[bc_rows]))
        return extra_residual_fn(sol).at[bc_rows].set(0.0)

    def extra_res_rows(sol):
        """Rows zeroed, BC columns kept — the extra K_fb for the bc-grad
        correction."""
        return extra_residual_fn(sol).at[bc_rows].set(0.0)

    # ASD: detect + color the extra Jacobian once, on a sample solution.
    sol0 = zero_like_initial_guess(problem, bc)
    jac_extra_fn, extra_pat = sparse_jacobian_fn(extra_res_bc, sol0)

    # Merged pattern = bulk connectivity ∪ extra (+ slot & transpose maps).
    n = problem.num_total_dofs_all_vars
    bulk_pat = sp.csr_matrix(
        (onp.ones(onp.asarray(problem.csr_indices).size, bool),
         onp.asarray(problem.csr_indices), onp.asarray(problem.csr_indptr)),
        shape=(n, n))
    m = merge_csr_patterns(bulk_pat, extra_pat)
    _extra_nnz = int(extra_pat.nnz)

    J_bc_param = create_J_bc_csr_parametric(problem, symmetric=symmetric_elimination)
    res_bc_param = create_res_bc_parametric(problem)

    def J_merged_param(sol, tp, bc_arg, ts):
        Jb = J_bc_param(sol, tp, bc_arg, ts)
        data = np.zeros(m["nnz"], Jb.data.dtype).at[m["slots_a"]].add(Jb.data)
        if _extra_nnz:
            data = data.at[m["slots_b"]].add(jac_extra_fn(sol).data)
        return CSRMatrix(data, m["indptr"], m["indices"], m["shape"])

    def J_merged_T_param(sol, tp, bc_arg, ts):
        return transpose_with_maps(
            J_merged_param(sol, tp, bc_arg, ts),
            m["T_perm"], m["T_indptr"], m["T_indices"])

    if newton_options is None:
        newton_options = NewtonOptions()

    direct_solve_fn = create_linear_solve_fn(linear_options, cache_namespace="forward")
    _adj_direct = isinstance(adjoint_linear_options, DirectSolverOptions)
    adjoint_linear_solve_fn = create_linear_solve_fn(
        adjoint_linear_options, cache_namespace="adjoint")

    res_total_jit = jax.jit(
        lambda sol, tp, bc_arg, ts: res_bc_param(sol, tp, bc_arg, ts) + extra_res_bc(sol))
    J_jit = jax.jit(J_merged_param)

    _verbose = linear_options.verbose

    def assembled_solve_fn(traced_params, initial_sol, bc_arg, ts=None):
        """Host Newton loop; each step factorizes the exact merged tangent."""
        sol = initial_sol
        res_total = res_total_jit(sol, traced_params, bc_arg, ts)
        res_norm = float(np.linalg.norm(res_total))
        initial_res_norm = res_norm

        if _verbose:
            _ensure_verbose_logging()
            logger.info(f"[assembled-extra Newton] initial res_norm = {initial_res_norm:.6e}")

        for it in range(newton_options.max_iter):
            if res_norm < newton_options.tol:
                break
            if it > 0 and res_norm / (initial_res_norm + 1e-30) < newton_options.rel_tol:
                break

            J = J_jit(sol, traced_params, bc_arg, ts)
            du = direct_solve_fn(J, -res_total, None)

            # Backtracking line search (accept any residual decrease).
            alpha, _ls_success = 1.0, False
            for _bt in range(newton_options.line_search_max_backtracks):
                trial_sol = sol + alpha * du
                trial_res = res_total_jit(trial_sol, traced_params, bc_arg, ts)
                trial_norm = float(np.linalg.norm(trial_res))
                if trial_norm < res_norm:
                    _ls_success = True
                    break
                alpha *= newton_options.line_search_rho

            if not _ls_success:
                if _verbose:
                    logger.info(f"[assembled-extra Newton] iter {it:3d}: "
                                "line search failed, stopping")
                break

            sol, res_total, res_norm = trial_sol, trial_res, trial_norm
            if _verbose:
                logger.info(
                    f"[assembled-extra Newton] iter {it:3d}: "
                    f"res_norm = {res_norm:.6e}, "
                    f"rel = {res_norm / (initial_res_norm + 1e-30):.6e}, alpha = {alpha:.4f}")

        rel = res_norm / (initial_res_norm + 1e-30)
        converged = (res_norm < newton_options.tol) or (rel < newton_options.rel_tol)
        if not converged:
            logger.warning(
                f"[assembled-extra Newton] did NOT converge after {it + 1} iterations "
                f"(res_norm = {res_norm:.6e}, rel = {rel:.6e})")
        return sol, res_norm, converged

    return _create_differentiable_newton_solver(
        problem=problem,
        bc=bc,
        J_bc_func=None,
        res_bc_func=None,
        solve_fn=assembled_solve_fn,
        adjoint_solver_options=adjoint_linear_options,
        adjoint_linear_solve_fn=adjoint_linear_solve_fn,
        # Direct adjoint: assembled transposed merged operator; Krylov adjoint:
        # hybrid matvec (J_bulkᵀ + extra VJP).
        J_adjoint_parametric=J_merged_T_param if _adj_direct else None,
        extra_res_bc_fn=None if _adj_direct else extra_res_bc,
        bulk_J_bc_func=None if _adj_direct else J_bc_param,
        J_bc_parametric=J_bc_param,
        res_bc_parametric=res_bc_param,
        symmetric_elimination=symmetric_elimination,
        extra_rows_fn=extra_res_rows,
    )


def create_newton_solver(
    problem,
    bc,
    linear_options,
    adjoint_linear_options,
    newton_options: Optional[NewtonOptions] = None,
    traced_params=None,
    extra_residual_fn=None,
    symmetric_elimination: bool = True,
    traced_structure=None,
):
    """Create a differentiable nonlinear Newton solver.

    The Newton iteration always runs adaptively (to ``newton_options.tol`` /
    ``rel_tol``, capped at ``max_iter``). For a single linear solve use
    :func:`feax.solvers.linear.create_linear_solver` instead.

    Parameters
    ----------
    extra_residual_fn : callable, optional
        Additional residual: ``extra_residual_fn(sol_flat) -> residual_flat``.
        Dirichlet BC rows of the extra residual are zeroed automatically. Two
        paths, chosen by ``linear_options``:

        - ``KrylovSolverOptions``: hybrid matrix-free Newton-Krylov — feax
          assembles the bulk Jacobian (sparse) and the extra contribution's
          JVP is computed via ``jax.jvp``:
          ``J_total @ v = J_bulk @ v + jvp(extra_res_bc, sol, v)``.
        - ``DirectSolverOptions``: assembled path — the extra Jacobian's
          sparsity is detected once via ASD (asdex) and assembled on the
          merged (bulk ∪ extra) CSR pattern, so a direct solver factorizes
          the exact tangent.
    """
    # AMGSolverOptions with rebuild_every != 0 (None = adaptive lag, or a fixed
    # period k>=1) uses a dedicated host Newton loop that rebuilds the AMG
    # hierarchy from the current tangent (needed for strong nonlinearity / large
    # deformation, where a fixed hierarchy goes stale). rebuild_every == 0 falls
    # through to the lowering below (fixed preconditioner, fully traced).
    if isinstance(linear_options, AMGSolverOptions) and linear_options.rebuild_every != 0:
        return _create_amg_rebuild_newton_solver(
            problem, bc, linear_options,
            newton_options if newton_options is not None else NewtonOptions(),
            traced_params, symmetric_elimination, traced_structure,
        )

    # Otherwise AMGSolverOptions lowers to a matrix-free Krylov solve
    # preconditioned by a once-built AMG V-cycle, so every downstream path treats
    # it as a Krylov solve.
    from .amg import amg_to_krylov_options
    _amg_shared = adjoint_linear_options is linear_options
    if isinstance(linear_options, AMGSolverOptions):
        linear_options = amg_to_krylov_options(
            linear_options, problem, bc, traced_params, traced_structure, symmetric_elimination)
    if isinstance(adjoint_linear_options, AMGSolverOptions):
        adjoint_linear_options = linear_options if _amg_shared else amg_to_krylov_options(
            adjoint_linear_options, problem, bc, traced_params, traced_structure, symmetric_elimination)

    # --- Hybrid matrix-free path ---
    # When extra_residual_fn is provided, JAX loop primitives (while_loop,
    # fori_loop) cannot be used because the hybrid Jacobian is a Python
    # callable (matvec), not a JAX array.  Use a Python Newton loop instead.
    if extra_residual_fn is not None:
        # Assembled path: detect + color the extra Jacobian (ASD), merge with
        # the bulk CSR pattern, factorize the exact tangent with a direct solver.
        if isinstance(linear_options, DirectSolverOptions):
            return _create_assembled_extra_newton_solver(
                problem, bc, linear_options, adjoint_linear_options,
                newton_options, extra_residual_fn, symmetric_elimination,
                traced_structure)

        bc_rows = bc.bc_rows

        def extra_res_bc(sol):
            """Extra residual with Dirichlet BC rows zeroed.

            Under symmetric elimination the BC COLUMNS are also removed from
            the tangent (stop_gradient; the value is unchanged): an extra term
            coupling to a BC DOF would otherwise make the hybrid operator
            nonsymmetric — silently breaking the CG forward/adjoint solves.
            The dropped K_fb coupling re-enters through the adjoint BC
            correction (``extra_rows_fn``), exactly like the bulk term.
            """
            if symmetric_elimination:
                sol = sol.at[bc_rows].set(jax.lax.stop_gradient(sol[bc_rows]))
            return extra_residual_fn(sol).at[bc_rows].set(0.0)

        def extra_res_rows(sol):
            """Rows zeroed, BC columns kept (extra K_fb for the bc correction)."""
            return extra_residual_fn(sol).at[bc_rows].set(0.0)

        if newton_options is None:
            newton_options = NewtonOptions()

        from .options import KrylovSolverOptions
        if not isinstance(linear_options, KrylovSolverOptions):
            raise TypeError(
                "extra_residual_fn requires KrylovSolverOptions or "
                f"DirectSolverOptions (got {type(linear_options).__name__})."
            )

        iterative_solve_fn = create_linear_solve_fn(linear_options)
        adjoint_fn_shared = adjoint_linear_options is linear_options
        adjoint_linear_solve_fn = (
            iterative_solve_fn if adjoint_fn_shared
            else create_linear_solve_fn(adjoint_linear_options)
        )

        # Bulk Jacobian / residual as PARAMETRIC functions: (sol, tp, bc, ts).
        # bc and TracedStructure are runtime arguments of the jit boundary, so the
        # per-iteration compiled kernels bake no mesh-sized constants and the
        # BC override (``solver(..., bc=...)``) reaches the forward loop. The
        # hybrid Newton loop runs as a Python loop (the matrix-free Jacobian is
        # a callable, not a JAX array); jitting the per-call kernels makes each
        # dispatch one compiled program.
        J_bc_param = create_J_bc_csr_parametric(problem, symmetric=symmetric_elimination)
        res_bc_param = create_res_bc_parametric(problem)
        J_bc_param_jit = jax.jit(J_bc_param)
        res_bc_param_jit = jax.jit(res_bc_param)

        _verbose = linear_options.verbose

        def _hybrid_total_res(sol, traced_params, bc_arg, ts):
            """Total residual = bulk + extra (with BCs zeroed)."""
            return res_bc_param_jit(sol, traced_params, bc_arg, ts) + extra_res_bc(sol)

        _iterative_solver = getattr(
            jax.scipy.sparse.linalg, linear_options.solver
        )

        def hybrid_solve_fn(traced_params, initial_sol, bc_arg, ts=None):
            """Python-loop Newton solver with hybrid matrix-free Jacobian."""
            sol = initial_sol
            res_total = _hybrid_total_res(sol, traced_params, bc_arg, ts)
            res_norm = float(np.linalg.norm(res_total))
            initial_res_norm = res_norm

            if _verbose:
                _ensure_verbose_logging()
                logger.info(f"[hybrid Newton] initial res_norm = {initial_res_norm:.6e}")

            for it in range(newton_options.max_iter):
                if res_norm < newton_options.tol:
                    break
                if it > 0 and res_norm / (initial_res_norm + 1e-30) < newton_options.rel_tol:
                    break

                # Bulk Jacobian (sparse) + hybrid matvec
                J_bulk = J_bc_param_jit(sol, traced_params, bc_arg, ts)

                def matvec(v, _sol=sol):
                    _, Jv_extra = jax.jvp(extra_res_bc, (_sol,), (v,))
                    return J_bulk @ v + Jv_extra

                # Jacobi preconditioner from bulk Jacobian diagonal
                M = None
                if linear_options.use_jacobi_preconditioner and linear_options.preconditioner is None:
                    M = create_jacobi_preconditioner(J_bulk, linear_options.jacobi_shift)
                else:
                    M = linear_options.preconditioner

                x0 = np.zeros_like(sol)
                _kw = dict(
                    x0=x0, M=M,
                    tol=linear_options.tol,
                    atol=linear_options.atol,
                    maxiter=linear_options.maxiter,
                )
                if linear_options.solver == 'gmres':
                    _kw['restart'] = linear_options.restart or min(200, sol.shape[0])
                du, _ = _iterative_solver(matvec, -res_total, **_kw)
                du_norm = float(np.linalg.norm(du))

                # Early termination if linear solver stagnated
                if du_norm < 1e-30:
                    if _verbose:
                        logger.info(
                            f"[hybrid Newton] iter {it:3d}: "
                            f"linear solver returned du=0, stopping"
                        )
                    break

                # Simple backtracking line search (accept any decrease)
                alpha = 1.0
                _ls_success = False
                for _bt in range(newton_options.line_search_max_backtracks):
                    trial_sol = sol + alpha * du
                    trial_res = _hybrid_total_res(trial_sol, traced_params, bc_arg, ts)
                    trial_norm = float(np.linalg.norm(trial_res))
                    if trial_norm < res_norm:
                        _ls_success = True
                        break
                    alpha *= newton_options.line_search_rho

                if not _ls_success:
                    if _verbose:
                        logger.info(
                            f"[hybrid Newton] iter {it:3d}: "
                            f"line search failed, stopping"
                        )
                    break

                sol = trial_sol
                res_total = trial_res
                res_norm = trial_norm

                if _verbose:
                    logger.info(
                        f"[hybrid Newton] iter {it:3d}: "
                        f"res_norm = {res_norm:.6e}, "
                        f"rel = {res_norm / (initial_res_norm + 1e-30):.6e}, "
                        f"du_norm = {du_norm:.6e}, alpha = {alpha:.4f}"
                    )

            rel = res_norm / (initial_res_norm + 1e-30)
            converged = (res_norm < newton_options.tol) or (rel < newton_options.rel_tol)
            if _verbose:
                status = "converged" if converged else "NOT converged"
                logger.info(
                    f"[hybrid Newton] {status} in {it + 1} iterations, "
                    f"res_norm = {res_norm:.6e}, rel = {rel:.6e}"
                )
            if not converged:
                logger.warning(
                    f"[hybrid Newton] did NOT converge after {it + 1} iterations "
                    f"(res_norm = {res_norm:.6e}, tol = {newton_options.tol:.1e}, "
                    f"rel = {rel:.6e}, rel_tol = {newton_options.rel_tol:.1e})"
                )

            return sol, res_norm, converged

        return _create_differentiable_newton_solver(
            problem=problem,
            bc=bc,
            J_bc_func=None,
            res_bc_func=None,
            solve_fn=hybrid_solve_fn,
            adjoint_solver_options=adjoint_linear_options,
            adjoint_linear_solve_fn=adjoint_linear_solve_fn,
            extra_res_bc_fn=extra_res_bc,
            bulk_J_bc_func=J_bc_param,
            J_bc_parametric=J_bc_param,
            res_bc_parametric=res_bc_param,
            symmetric_elimination=symmetric_elimination,
            extra_rows_fn=extra_res_rows,
        )

    # --- Standard path (no extra residual): unified callback solver ---
    return create_callback_newton_solver(
        problem=problem,
        bc=bc,
        linear_options=linear_options,
        adjoint_linear_options=adjoint_linear_options,
        newton_options=newton_options,
        traced_params=traced_params,
        symmetric_elimination=symmetric_elimination,
        traced_structure=traced_structure,
    )


def create_armijo_line_search_scan(res_bc_applied, c1=1e-4, rho=0.5, max_backtracks=30):
    """Create JAX scan-based Armijo line search (vmap-friendly)."""

    def line_search(sol, delta_sol, res, res_norm, traced_params=None):
        grad_merit = -np.dot(res, res)

        def scan_fn(carry, _):
            alpha, best_sol, best_norm, best_alpha, found_good = carry
            trial_sol = sol + alpha * delta_sol
            if traced_params is not None:
                trial_res = res_bc_applied(trial_sol, traced_params)
            else:
                trial_res = res_bc_applied(trial_sol)
            trial_norm = np.linalg.norm(trial_res)

            is_valid = np.logical_not(np.any(np.isnan(trial_res)))
            merit_decrease = 0.5 * (trial_norm**2 - res_norm**2)
            armijo_satisfied = merit_decrease <= c1 * alpha * grad_merit
            is_acceptable = is_valid & armijo_satisfied

            should_update = is_acceptable & np.logical_not(found_good)
            new_sol = np.where(should_update, trial_sol, best_sol)
            new_norm = np.where(should_update, trial_norm, best_norm)
            new_alpha_accepted = np.where(should_update, alpha, best_alpha)
            new_alpha = alpha * rho
            new_found = found_good | is_acceptable

            return (new_alpha, new_sol, new_norm, new_alpha_accepted, new_found), None

        # ``best_alpha`` records the *actual* alpha at which the Armijo
        # condition was first satisfied — this is what callers care about.
        # Initialised to NaN so it's obvious if the line search fails.
        init_carry = (1.0, sol, res_norm, np.nan, False)
        (_, best_sol, best_norm, best_alpha, found_good), _ = jax.lax.scan(
            scan_fn, init_carry, None, length=max_backtracks
        )

        fallback_sol = sol + 1e-8 * delta_sol
        if traced_params is not None:
            fallback_res = res_bc_applied(fallback_sol, traced_params)
        else:
            fallback_res = res_bc_applied(fallback_sol)
        fallback_norm = np.linalg.norm(fallback_res)

        final_sol = np.where(found_good, best_sol, fallback_sol)
        final_norm = np.where(found_good, best_norm, fallback_norm)
        final_alpha_out = np.where(found_good, best_alpha, 1e-8)

        return final_sol, final_norm, final_alpha_out, found_good

    return line_search



def create_callback_newton_solver(
    problem,
    bc,
    linear_options,
    adjoint_linear_options,
    newton_options: NewtonOptions = None,
    traced_params=None,
    symmetric_elimination: bool = True,
    traced_structure=None,
):
    """Create a differentiable, jit/vmap-safe Newton solver (traced loop).

    The Newton iteration (inherently data-dependent) is a
    :func:`jax.lax.while_loop` whose body is one Newton step (fused CSR
    residual+Jacobian assembly + linear solve + Armijo line search). The body
    is traced once, so the compiled graph holds a single step regardless of
    ``max_iter``, and the solver composes natively with ``jax.jit`` /
    ``jax.vmap`` / ``jax.grad``. The backward pass is a single adjoint linear
    solve plus the residual VJP (custom_vjp — nothing differentiates through
    the loop).

    ``raise_on_line_search_failure`` is honored for eager calls only; under
    jit/vmap a failed line search stops the iteration (no exception can be
    raised from traced values).

    Returns ``solver(traced_params, initial_guess, bc=None, traced_structure=None)
    -> solution``.
    """
    if newton_options is None:
        newton_options = NewtonOptions()

    # Operator representation follows the solve method: direct factorizes the
    # assembled CSR matrix; Krylov (cg/bicgstab/gmres) needs only a matvec, so
    # it uses the matrix-free operator (a residual JVP) — no assembly.
    # (AMGSolverOptions was already lowered to a Krylov + AMG preconditioner.)
    _fwd_direct = isinstance(linear_options, DirectSolverOptions)
    _adj_direct = isinstance(adjoint_linear_options, DirectSolverOptions)

    res_param = create_res_bc_parametric(problem)
    # Forward: fused residual+CSR Jacobian (direct) or residual + matrix-free
    # matvec (Krylov).
    res_J_param = create_res_J_bc_csr_parametric(problem, symmetric=symmetric_elimination)
    matfree_res_J_param = create_matfree_res_J_parametric(problem, symmetric=symmetric_elimination)
    # Adjoint operators: assembled CSR (direct) or matrix-free (Krylov), plus the
    # un-eliminated K_bulk^T for the symmetric-BC bc_vals-gradient correction.
    J_csr_param = create_J_bc_csr_parametric(problem, symmetric=symmetric_elimination)
    matfree_Kt_param = create_matfree_Kt_parametric(problem)

    linear_solve_fn = create_linear_solve_fn(linear_options, cache_namespace="forward")
    if adjoint_linear_options is linear_options:
        adjoint_linear_solve_fn = create_linear_solve_fn(
            adjoint_linear_options, cache_namespace="adjoint")
    else:
        adjoint_linear_solve_fn = create_linear_solve_fn(
            adjoint_linear_options, cache_namespace="adjoint")

    x0_param = create_x0_parametric()

    # Pre-warm direct solve closures with concrete CSR structure (outside any
    # trace). Required for the TracedStructure path: the traced adjoint sees
    # tracer-valued CSR structure, so the cuDSS closure cannot initialize
    # lazily there. No-op when traced_params is None or no direct solver is used.
    if _fwd_direct or _adj_direct:
        prewarm_direct_solvers(
            problem=problem,
            bc=bc,
            traced_params=traced_params,
            J_bc_func=create_J_bc_csr_function(problem, bc, symmetric=symmetric_elimination),
            forward_options=linear_options,
            adjoint_options=adjoint_linear_options,
            forward_solve_fn=linear_solve_fn,
            adjoint_solve_fn=adjoint_linear_solve_fn,
            traced_structure=traced_structure,
            J_bc_func_parametric=J_csr_param,
        )

    tol = newton_options.tol
    rel_tol = newton_options.rel_tol
    max_iter = newton_options.max_iter

    # Vectorizable (scan-based) Armijo line search keyed on (tp, bc, ts).
    _res_for_armijo = lambda s, ivbc: res_param(s, ivbc[0], ivbc[1], ivbc[2])
    armijo = create_armijo_line_search_scan(
        _res_for_armijo,
        c1=newton_options.line_search_c1,
        rho=newton_options.line_search_rho,
        max_backtracks=newton_options.line_search_max_backtracks,
    )

    _raise_on_ls_fail = newton_options.raise_on_line_search_failure

    _fwd_res_J = res_J_param if _fwd_direct else matfree_res_J_param

    def one_step(sol, tp, bc_, ts):
        """One Newton step (fully traceable → vmaps natively).

        Returns ``(new_sol, new_res_norm, line_search_found)``.
        """
        # Residual + operator: assembled CSRMatrix (direct) or matrix-free
        # matvec (Krylov). ``J`` is whatever the linear solver consumes.
        res, J = _fwd_res_J(sol, tp, bc_, ts)
        res_norm = np.linalg.norm(res)
        x0 = x0_param(sol, bc_)
        du = linear_solve_fn(J, -res, x0)
        new_sol, new_norm, _alpha, found = armijo(
            sol, du, res, res_norm, traced_params=(tp, bc_, ts))
        return new_sol, new_norm, found

    def _res_norm_single(sol, tp, bc_, ts):
        return np.linalg.norm(res_param(sol, tp, bc_, ts))

    # ---- forward: traced Newton loop (lax.while_loop) ---------------------
    # The loop body is traced ONCE — the compiled graph holds a single Newton
    # step regardless of ``max_iter`` (a while_loop does not unroll). The whole
    # solve therefore:
    #   * composes with jax.jit natively, with no pure_callback node and no
    #     host round-trip per iteration (each step is one fused program, not
    #     hundreds of eagerly dispatched kernels);
    #   * vmaps natively (batched while_loop: all lanes iterate until every
    #     lane's condition is false, converged lanes are masked) — the CPU
    #     direct backends keep their block-diagonal custom_vmap rules;
    #   * works with GPU FFI backends (cuDSS): inside a pure_callback the
    #     computation is placed on the Host platform, where the CUDA FFI
    #     handler does not exist. CPU direct backends (spsolve/cholmod/
    #     umfpack) are pure_callback-based and run inside the loop body fine.
    # Gradients are unaffected — custom_vjp wraps the solve, nothing
    # differentiates through the loop.
    #
    # Host-side behavior: ``raise_on_line_search_failure`` is honored for
    # eager (non-traced, non-vmapped) calls, where the final line-search flag
    # is concrete. Under jit/vmap an exception cannot be raised from traced
    # values; a failed line search simply stops the iteration there.
    _verbose = newton_options.verbose

    def _forward(tp, sol0, bc_, ts):
        res00 = _res_norm_single(sol0, tp, bc_, ts)
        if _verbose:
            jax.debug.print(
                "[feax] Newton start: ||res|| = {r:.6e}", r=res00)

        def cond(state):
            sol, rn, it, found = state
            not_converged = (rn > tol) & ((rn / np.maximum(res00, 1e-30)) > rel_tol)
            return (it < max_iter) & not_converged & found

        def body(state):
            sol, rn, it, found = state
            new_sol, new_norm, f = one_step(sol, tp, bc_, ts)
            if _verbose:
                jax.debug.print(
                    "[feax] Newton iter {i}: ||res|| = {r:.6e} (rel {rel:.3e})",
                    i=it + 1, r=new_norm, rel=new_norm / np.maximum(res00, 1e-30))
            return (new_sol, new_norm, it + 1, f)

        init = (sol0, res00, np.array(0, dtype=np.int32), np.array(True))
        sol, _, it, found = jax.lax.while_loop(cond, body, init)

        if _raise_on_ls_fail and not isinstance(found, jax.core.Tracer):
            if not bool(found):
                raise NewtonLineSearchError(
                    f"Newton iter {int(it)}: Armijo line search failed after "
                    f"{newton_options.line_search_max_backtracks} backtracks. "
                    "The Newton direction is not a descent direction for "
                    "0.5*||r||^2 — usually a sign of an inconsistent Jacobian "
                    "or a bad linear solve.")
        return sol

    # ---- adjoint (single traced linear solve; vmaps natively) ------------
    _needs_bc_correction = symmetric_elimination

    def _adjoint(traced_params, sol, effective_bc, v, ts):
        v_vec = v
        src = ts if ts is not None else problem
        use_transpose = problem.matrix_view not in (MatrixView.UPPER, MatrixView.LOWER)

        # Adjoint operator Jᵀ.
        if _adj_direct:
            J = J_csr_param(sol, traced_params, effective_bc, ts)
            J_adjoint = transpose_with_maps(
                J, src.csr_T_perm, src.csr_T_indptr, src.csr_T_indices
            ) if use_transpose else J
        elif symmetric_elimination:
            # Jᵀ of the eliminated operator: identity on BC entries, K_ffᵀ on the
            # free ones (the elimination does not make K itself symmetric).
            _Kt = matfree_Kt_param(sol, traced_params, ts)
            _mask = effective_bc.bc_mask
            J_adjoint = lambda w: np.where(_mask, w, _Kt(np.where(_mask, 0.0, w)))
        else:
            # Non-symmetric BC: Jᵀ is the VJP of the BC-applied residual.
            _, _vjp = jax.vjp(
                lambda s: res_param(s, traced_params, effective_bc, ts), sol)
            J_adjoint = lambda w: _vjp(w)[0]

        adjoint_vec = linear_solve_adjoint(
            J_adjoint, v_vec, adjoint_linear_options, problem.matrix_view,
            effective_bc, linear_solve_fn=adjoint_linear_solve_fn,
        )

        # Symmetric-elimination BC correction so bc_vals gradients are correct:
        #   λ_bc = v_bc - K_fb^T λ_free,  with K_bulk the un-eliminated Jacobian
        #   (assembled transpose for direct with full storage, matrix-free VJP
        #   for Krylov and for one-triangle storage).
        if _needs_bc_correction:
            lambda_free = adjoint_vec.at[effective_bc.bc_rows].set(0.0)
            if _adj_direct and use_transpose:
                sol_list = problem.unflatten_fn_sol_list(sol)
                kdata, kindptr, kindices = _get_J_csr(problem, sol_list, traced_params, ts)
                K_bulk = CSRMatrix(kdata, kindptr, kindices,
                                   (problem.num_total_dofs_all_vars,) * 2)
                ktw = K_bulk.rmatvec(lambda_free)
            else:
                ktw = matfree_Kt_param(sol, traced_params, ts)(lambda_free)
            correction = ktw[effective_bc.bc_rows]
            adjoint_vec = adjoint_vec.at[effective_bc.bc_rows].set(
                v_vec[effective_bc.bc_rows] - correction)

        return adjoint_vec

    @jax.custom_vjp
    def differentiable_solve(traced_params, initial_guess, effective_bc, ts):
        return _forward(traced_params, initial_guess, effective_bc, ts)

    def f_fwd(traced_params, initial_guess, effective_bc, ts):
        sol = differentiable_solve(traced_params, initial_guess, effective_bc, ts)
        return sol, (traced_params, sol, effective_bc, ts)

    def f_bwd(res, v):
        traced_params, sol, effective_bc, ts = res
        adjoint_vec = _adjoint(traced_params, sol, effective_bc, v, ts)

        def res_fn(tp, bc_arg):
            return problem.unflatten_fn_sol_list(
                res_param(sol, tp, bc_arg, ts))

        adjoint_list = problem.unflatten_fn_sol_list(adjoint_vec)
        _, f_vjp = jax.vjp(res_fn, traced_params, effective_bc)
        vjp_iv, vjp_bc = f_vjp(adjoint_list)
        vjp_iv = jax.tree_util.tree_map(_safe_negate, vjp_iv)
        vjp_bc = jax.tree_util.tree_map(_safe_negate, vjp_bc)
        return (vjp_iv, None, vjp_bc, None)

    differentiable_solve.defvjp(f_fwd, f_bwd)

    from ..utils import zero_like_initial_guess
    default_initial_guess = zero_like_initial_guess(problem, bc)
    _default_bc = bc

    def solver(traced_params, initial_guess=None, bc=None, traced_structure=None):
        from ..DCboundary import DirichletBC
        effective_bc = bc if isinstance(bc, DirichletBC) else _default_bc
        ig = default_initial_guess if initial_guess is None else initial_guess
        return differentiable_solve(traced_params, ig, effective_bc, traced_structure)

    return solver
