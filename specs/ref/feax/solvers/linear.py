"""
Linear solver implementations for FEAX finite element framework.

This module provides low-level linear algebra utilities and solver
selection logic for solving systems of the form A x = b arising
in finite element analysis.

Key Features:
- Jacobi (diagonal) preconditioner
- Solver selection: cg, bicgstab, gmres, spsolve, umfpack, cholmod, cudss
- Convergence checking for ill-conditioned problems
- Adjoint linear solve for gradient computation
- create_linear_solver: high-level differentiable solver for linear problems
"""

import logging
import os
from typing import Any, Callable, Optional

import jax
import jax.numpy as np

from ..assembler import (
    create_J_bc_csr_function,
    create_J_bc_csr_parametric,
    create_matfree_Kt_parametric,
    create_matfree_res_J_parametric,
    create_res_bc_parametric,
    detect_zero_surface_jacobian,
)
from ..csr import transpose_with_maps
from ..DCboundary import DirichletBC
from ..problem import MatrixView, Problem
from .common import (
    _safe_negate,
    check_convergence,
    create_linear_solve_fn,
    prewarm_direct_solvers,
    create_x0,
)
from .options import (
    AbstractSolverOptions,
    AMGSolverOptions,
    DirectSolverOptions,
    KrylovSolverOptions,
    MatrixProperty,
    SolverOptions,
    resolve_direct_solver,
    resolve_iterative_solver,
)

logger = logging.getLogger(__name__)


def linear_solve_adjoint(
    A,
    b,
    solver_options: AbstractSolverOptions,
    matrix_view: MatrixView,
    bc=None,
    linear_solve_fn: Optional[Callable] = None,
):
    """Solve linear system for adjoint problem.

    Parameters
    ----------
    A : BCOO sparse matrix
        The transposed Jacobian matrix (J^T)
    b : jax.numpy.ndarray
        Right-hand side vector (cotangent vector from VJP)
    solver_options : SolverOptions or DirectSolverOptions or KrylovSolverOptions
        Solver configuration for adjoint solve
    matrix_view : MatrixView
        Matrix storage format from the problem
    bc : DirichletBC, optional
        Boundary conditions for computing initial guess
    linear_solve_fn : callable, optional
        Pre-created linear solve function. If None, one is created from
        solver_options internally.

    Returns
    -------
    sol : jax.numpy.ndarray
        Solution to the adjoint system: A @ sol = b

    Notes
    -----
    For the adjoint problem, boundary conditions are already incorporated into
    the transposed Jacobian matrix. The initial guess uses BC-aware computation
    when bc is provided, which can improve convergence for problems with
    Dirichlet boundary conditions.
    """
    if linear_solve_fn is None:
        linear_solve_fn = create_linear_solve_fn(solver_options)

    x0 = None
    if solver_options.uses_x0():
        if bc is not None and hasattr(bc, 'bc_rows') and hasattr(bc, 'bc_vals'):
            x0 = np.zeros_like(b)
            bc_rows_array = np.array(bc.bc_rows) if not isinstance(bc.bc_rows, np.ndarray) else bc.bc_rows
            x0 = x0.at[bc_rows_array].set(b[bc_rows_array])
        else:
            x0 = np.zeros_like(b)

    sol = linear_solve_fn(A, b, x0)

    if solver_options.check_convergence:
        sol = check_convergence(
            A=A,
            x=sol,
            b=b,
            solver_options=solver_options,
            matrix_view=matrix_view,
            solver_label="Adjoint solver",
        )

    return sol


def linear_solve(
    J_bc_applied,
    res_bc_applied,
    initial_guess,
    bc: DirichletBC,
    solver_options: AbstractSolverOptions,
    matrix_view: MatrixView,
    traced_params=None,
    P_mat=None,
    linear_solve_fn: Optional[Callable] = None,
    x0_fn: Optional[Callable] = None,
):
    """Single-step linear solve used by create_solver(linear=True)."""

    if linear_solve_fn is None:
        linear_solve_fn = create_linear_solve_fn(solver_options)

    if traced_params is not None:
        res = res_bc_applied(initial_guess, traced_params)
        J = J_bc_applied(initial_guess, traced_params)
    else:
        res = res_bc_applied(initial_guess)
        J = J_bc_applied(initial_guess)

    b = -res
    x0 = None
    if solver_options.uses_x0():
        if x0_fn is None:
            x0_fn = create_x0(bc_rows=bc.bc_rows, bc_vals=bc.bc_vals, P_mat=P_mat)
        x0 = x0_fn(initial_guess)

    delta_sol = linear_solve_fn(J, b, x0)

    if solver_options.check_convergence:
        delta_sol = check_convergence(
            A=J,
            x=delta_sol,
            b=b,
            solver_options=solver_options,
            matrix_view=matrix_view,
            solver_label="Linear solver",
        )

    sol = initial_guess + delta_sol
    return sol, None


def create_linear_solver(
    problem: Problem,
    bc: DirichletBC,
    solver_options: Optional[AbstractSolverOptions] = None,
    adjoint_solver_options: Optional[AbstractSolverOptions] = None,
    traced_params=None,
    symmetric_elimination: bool = True,
    traced_structure=None,
) -> Callable[[Any, np.ndarray], np.ndarray]:
    """Create a differentiable solver for linear FE problems.

    Simpler and more focused alternative to ``create_solver(linear=True)``
    when the problem is known to be linear (e.g. linear elasticity).
    The returned function supports ``jax.grad`` via a custom VJP based on
    the adjoint method.

    Parameters
    ----------
    problem : Problem
        The feax Problem instance.
    bc : DirichletBC
        Boundary conditions.
    solver_options : DirectSolverOptions or KrylovSolverOptions, optional
        Options for the forward linear solve (defaults to KrylovSolverOptions()).
    adjoint_solver_options : DirectSolverOptions or KrylovSolverOptions, optional
        Options for the adjoint solve used in the backward pass.
        Defaults to the same options as the forward solve.
    traced_params : TracedParams, optional
        Sample internal variables used to pre-warm cuDSS with concrete CSR
        structure before any JAX tracing. Recommended when using cuDSS and
        composing ``jax.jit`` with ``jax.grad``.
    symmetric_elimination : bool, default True
        Use symmetric Dirichlet elimination (zero BC rows *and* columns).

    Returns
    -------
    differentiable_solve : callable
        A function with signature ``(traced_params, initial_guess) -> solution``
        that is differentiable w.r.t. ``traced_params`` via ``jax.grad``.

    Notes
    -----
    The operator representation follows the solve method: ``DirectSolverOptions``
    assembles the Jacobian straight into CSR (for factorization), while
    ``KrylovSolverOptions`` (cg/bicgstab/gmres) is fully **matrix-free** — the
    forward and adjoint matvecs are residual JVPs, so the element Jacobian is
    never materialized.

    Forward pass performs a single linear solve:

    ```python
    J * delta_sol = -res
    sol = initial_guess + delta_sol
    ```

    Backward pass solves the adjoint system:

    ```python
    J^T * adjoint = v
    ```

    and returns the VJP of the residual w.r.t. ``traced_params``.

    Examples
    --------
    >>> solver = create_linear_solver(problem, bc)
    >>> initial = fe.zero_like_initial_guess(problem, bc)
    >>> sol = solver(traced_params, initial)
    >>>
    >>> # Gradient w.r.t. traced_params
    >>> def loss(traced_params):
    ...     sol = solver(traced_params, initial)
    ...     return np.sum(sol ** 2)
    >>> grad = jax.grad(loss)(traced_params)
    """
    # Linear FE problems are typically SPD after Dirichlet elimination.
    # Resolve "auto" eagerly so low-level factories never receive unresolved options.
    default_matrix_property = MatrixProperty.SPD

    if solver_options is None:
        solver_options = KrylovSolverOptions()
    if adjoint_solver_options is None:
        adjoint_solver_options = solver_options

    shared_opts = adjoint_solver_options is solver_options

    if isinstance(solver_options, SolverOptions) or isinstance(adjoint_solver_options, SolverOptions):
        raise RuntimeError(
            "SolverOptions has been removed. "
            "Use DirectSolverOptions or KrylovSolverOptions."
        )
    if not isinstance(solver_options, (DirectSolverOptions, KrylovSolverOptions, AMGSolverOptions)):
        raise TypeError(
            "Unsupported solver_options type. "
            f"Expected DirectSolverOptions, KrylovSolverOptions, or AMGSolverOptions, got {type(solver_options).__name__}."
        )
    if not isinstance(adjoint_solver_options, (DirectSolverOptions, KrylovSolverOptions, AMGSolverOptions)):
        raise TypeError(
            "Unsupported adjoint_solver_options type. "
            f"Expected DirectSolverOptions, KrylovSolverOptions, or AMGSolverOptions, got {type(adjoint_solver_options).__name__}."
        )

    # AMGSolverOptions lowers to a matrix-free Krylov solve preconditioned by a
    # once-built AMG V-cycle (rigid-body near-null-space for vector problems).
    from .amg import amg_to_krylov_options
    if isinstance(solver_options, AMGSolverOptions):
        solver_options = amg_to_krylov_options(
            solver_options, problem, bc, traced_params, traced_structure, symmetric_elimination)
    if isinstance(adjoint_solver_options, AMGSolverOptions):
        adjoint_solver_options = solver_options if shared_opts else amg_to_krylov_options(
            adjoint_solver_options, problem, bc, traced_params, traced_structure, symmetric_elimination)

    if isinstance(solver_options, KrylovSolverOptions):
        solver_options = resolve_iterative_solver(solver_options, default_matrix_property)
    elif isinstance(solver_options, DirectSolverOptions):
        solver_options = resolve_direct_solver(
            solver_options,
            default_matrix_property,
            matrix_view=problem.matrix_view,
        )

    if shared_opts:
        adjoint_solver_options = solver_options
    else:
        if isinstance(adjoint_solver_options, KrylovSolverOptions):
            adjoint_solver_options = resolve_iterative_solver(adjoint_solver_options, default_matrix_property)
        elif isinstance(adjoint_solver_options, DirectSolverOptions):
            adjoint_solver_options = resolve_direct_solver(
                adjoint_solver_options,
                default_matrix_property,
                matrix_view=problem.matrix_view,
            )

    _default_bc = bc

    # Operator representation follows the solve method: direct factorizes the
    # assembled CSR matrix; Krylov (cg/bicgstab/gmres) needs only a matvec, so
    # it uses the matrix-free operator (a residual JVP) — no assembly at all.
    # (AMGSolverOptions has already been lowered to a Krylov + AMG preconditioner
    # above, so it follows the matrix-free path here.)
    _fwd_direct = isinstance(solver_options, DirectSolverOptions)
    _adj_direct = isinstance(adjoint_solver_options, DirectSolverOptions)

    # CSR-direct operators (only built when a direct solver is on either path).
    J_bc_csr_func = create_J_bc_csr_function(problem, bc, symmetric=symmetric_elimination) if (_fwd_direct or _adj_direct) else None
    J_bc_csr_parametric = create_J_bc_csr_parametric(problem, symmetric=symmetric_elimination) if (_fwd_direct or _adj_direct) else None
    # Detect dead (u-independent) surface loads once: if the surface Jacobian is
    # identically zero we drop it from the CSR assembly, which keeps the operator
    # independent of ``surface_vars``. Then a ``jax.vmap`` over the load hoists the
    # single cuDSS factorization out of the batch (factor-once / solve-many) with
    # no change to the create_solver interface. Opt out via FEAX_SKIP_ZERO_SURFACE_JAC=0.
    if (_fwd_direct or _adj_direct) and traced_params is not None \
            and os.environ.get("FEAX_SKIP_ZERO_SURFACE_JAC", "1") != "0":
        problem._surface_jac_zero = detect_zero_surface_jacobian(
            problem, traced_params, traced_structure)
    # Matrix-free operator (fused BC-applied residual + JVP matvec) for Krylov.
    matfree_res_J_param = create_matfree_res_J_parametric(problem, symmetric=symmetric_elimination)
    matfree_Kt_param = create_matfree_Kt_parametric(problem)
    res_bc_parametric = create_res_bc_parametric(problem)
    linear_solve_fn = create_linear_solve_fn(
        solver_options,
        cache_namespace="forward",
    )
    if adjoint_solver_options is solver_options:
        adjoint_linear_solve_fn = linear_solve_fn
    else:
        adjoint_linear_solve_fn = create_linear_solve_fn(
            adjoint_solver_options,
            cache_namespace="adjoint",
        )
    x0_fn = solver_options.x0_fn if isinstance(solver_options, KrylovSolverOptions) else None

    # Pre-warm with the CSR Jacobian when a direct solver is used so the cuDSS
    # symbolic structure matches the canonical CSR fed at solve time. (FEM
    # patterns are structurally symmetric, so J and J^T share structure and the
    # adjoint reuses the same warmup.)
    prewarm_direct_solvers(
        problem=problem,
        bc=bc,
        traced_params=traced_params,
        J_bc_func=J_bc_csr_func,
        forward_options=solver_options,
        adjoint_options=adjoint_solver_options,
        forward_solve_fn=linear_solve_fn,
        adjoint_solve_fn=adjoint_linear_solve_fn,
        traced_structure=traced_structure,
        J_bc_func_parametric=J_bc_csr_parametric,
    )

    # Factorization reuse (cuDSS only): factor J once in the forward and reuse
    # those factors for the adjoint solve. This is valid only when the OPERATOR
    # is symmetric (J = Jᵀ), because then λ = J⁻ᵀ v = J⁻¹ v uses the same
    # factorization. The right signal is the cuDSS matrix_type being SYMMETRIC(1)
    # or SPD(3) — NOT ``symmetric_elimination`` (which only chooses how Dirichlet rows are
    # eliminated and does not make a non-symmetric operator symmetric). A GENERAL
    # matrix (a non-symmetric operator, or symmetric_elimination=False, which breaks
    # symmetry and is auto-detected as GENERAL) falls back to the normal
    # two-factorization adjoint. The factorization token threads through the
    # custom_vjp residuals (see spineax.cudss.factor_solve).
    _reuse_factor = False
    if (_fwd_direct and _adj_direct
            and getattr(solver_options, "solver", None) == "cudss"
            and getattr(solver_options, "reuse_factorization", False)):
        _cudss = solver_options.cudss_options
        _mtype_id = int(getattr(_cudss.matrix_type, "value", _cudss.matrix_type))
        _mview_id = int(getattr(_cudss.matrix_view, "value", _cudss.matrix_view))
        _dev_id = int(getattr(_cudss, "device_id", 0) or 0)
        _reuse_factor = _mtype_id in (1, 3)   # SYMMETRIC or SPD => J = Jᵀ

    if _reuse_factor:
        from spineax.cudss.factor_solve import factorize as _factorize, solve_with as _solve_with

        def _factor_and_solve(initial_guess, traced_params, effective_bc, ts):
            res = res_bc_parametric(initial_guess, traced_params, effective_bc, ts)
            op = J_bc_csr_parametric(initial_guess, traced_params, effective_bc, ts)
            token = _factorize(op.data, op.indptr, op.indices,
                               device_id=_dev_id, mtype_id=_mtype_id, mview_id=_mview_id)
            delta_sol = _solve_with(token, -res, device_id=_dev_id)
            return initial_guess + delta_sol, token

    @jax.custom_vjp
    def differentiable_solve(traced_params, initial_guess, effective_bc, ts):
        if _reuse_factor:
            sol, _ = _factor_and_solve(initial_guess, traced_params, effective_bc, ts)
            return sol
        # Operator follows the solve method: direct assembles a CSR matrix;
        # Krylov uses the matrix-free (residual JVP) matvec — no assembly.
        if _fwd_direct:
            res = res_bc_parametric(initial_guess, traced_params, effective_bc, ts)
            op = J_bc_csr_parametric(initial_guess, traced_params, effective_bc, ts)
        else:
            res, op = matfree_res_J_param(initial_guess, traced_params, effective_bc, ts)

        b = -res
        x0 = None
        if solver_options.uses_x0():
            _x0_fn = x0_fn if x0_fn is not None else create_x0(
                bc_rows=effective_bc.bc_rows, bc_vals=effective_bc.bc_vals)
            x0 = _x0_fn(initial_guess)

        delta_sol = linear_solve_fn(op, b, x0)

        if solver_options.check_convergence:
            delta_sol = check_convergence(
                A=op, x=delta_sol, b=b,
                solver_options=solver_options,
                matrix_view=problem.matrix_view,
                solver_label="Linear solver",
            )

        return initial_guess + delta_sol

    def f_fwd(traced_params, initial_guess, effective_bc, ts):
        if _reuse_factor:
            sol, token = _factor_and_solve(initial_guess, traced_params, effective_bc, ts)
            return sol, (traced_params, sol, effective_bc, ts, token)
        sol = differentiable_solve(traced_params, initial_guess, effective_bc, ts)
        return sol, (traced_params, sol, effective_bc, ts)

    def _bc_corrected(adjoint_vec, v, sol, traced_params, effective_bc, ts):
        # Symmetric elimination removes K_fb from the operator, so the BC rows
        # of the adjoint have to be recovered: λ_bc = v_bc - (K^T λ_free)_bc.
        if not symmetric_elimination:
            return adjoint_vec
        bc_rows = effective_bc.bc_rows
        ktw = matfree_Kt_param(sol, traced_params, ts)(adjoint_vec.at[bc_rows].set(0.0))
        return adjoint_vec.at[bc_rows].set(v[bc_rows] - ktw[bc_rows])

    def f_bwd(res, v):
        if _reuse_factor:
            # Reuse the forward factorization: λ = J⁻ᵀ v = J⁻¹ v (symmetric).
            traced_params, sol, effective_bc, ts, token = res
            adjoint_vec = _solve_with(token, v, device_id=_dev_id)
            adjoint_vec = _bc_corrected(adjoint_vec, v, sol, traced_params, effective_bc, ts)

            def res_fn(tp, bc_arg):
                return problem.unflatten_fn_sol_list(
                    res_bc_parametric(sol, tp, bc_arg, ts))
            adjoint_list = problem.unflatten_fn_sol_list(adjoint_vec)
            _, f_vjp = jax.vjp(res_fn, traced_params, effective_bc)
            vjp_iv, vjp_bc = f_vjp(adjoint_list)
            vjp_iv = jax.tree_util.tree_map(_safe_negate, vjp_iv)
            vjp_bc = jax.tree_util.tree_map(_safe_negate, vjp_bc)
            return (vjp_iv, None, vjp_bc, None)

        traced_params, sol, effective_bc, ts = res

        # Adjoint solve: J^T @ adjoint = v
        use_transpose = problem.matrix_view not in (MatrixView.UPPER, MatrixView.LOWER)
        if _adj_direct:
            # CSR-direct adjoint: assemble J, then form J^T via precomputed
            # transpose maps (a pure gather, no sort). UPPER/LOWER store a
            # symmetric view so no transpose is applied.
            src = ts if ts is not None else problem
            J = J_bc_csr_parametric(sol, traced_params, effective_bc, ts)
            J_adjoint = transpose_with_maps(
                J, src.csr_T_perm, src.csr_T_indptr, src.csr_T_indices
            ) if use_transpose else J
        elif symmetric_elimination:
            # Jᵀ of the eliminated operator: identity on BC entries, K_ffᵀ on the
            # free ones (the elimination does not make K itself symmetric).
            _Kt = matfree_Kt_param(sol, traced_params, ts)
            _mask = effective_bc.bc_mask
            J_adjoint = lambda w: np.where(_mask, w, _Kt(np.where(_mask, 0.0, w)))
        else:
            # Non-symmetric BC: Jᵀ is the VJP of the BC-applied residual.
            _, _vjp = jax.vjp(
                lambda s: res_bc_parametric(s, traced_params, effective_bc, ts), sol)
            J_adjoint = lambda w: _vjp(w)[0]
        adjoint_vec = linear_solve_adjoint(
            J_adjoint, v, adjoint_solver_options, problem.matrix_view,
            effective_bc,
            linear_solve_fn=adjoint_linear_solve_fn
        )
        adjoint_vec = _bc_corrected(adjoint_vec, v, sol, traced_params, effective_bc, ts)

        # VJP of residual w.r.t. traced_params and bc
        def res_fn(tp, bc_arg):
            return problem.unflatten_fn_sol_list(
                res_bc_parametric(sol, tp, bc_arg, ts)
            )

        adjoint_list = problem.unflatten_fn_sol_list(adjoint_vec)
        _, f_vjp = jax.vjp(res_fn, traced_params, effective_bc)
        vjp_iv, vjp_bc = f_vjp(adjoint_list)
        vjp_iv = jax.tree_util.tree_map(_safe_negate, vjp_iv)
        vjp_bc = jax.tree_util.tree_map(_safe_negate, vjp_bc)

        return (vjp_iv, None, vjp_bc, None)

    differentiable_solve.defvjp(f_fwd, f_bwd)

    can_omit_initial_guess = not solver_options.uses_x0()

    import warnings
    from ..utils import zero_like_initial_guess

    default_initial_guess = zero_like_initial_guess(problem, bc)

    def solver_wrapper(traced_params, initial_guess=None, bc=None, traced_structure=None):
        effective_bc = bc if isinstance(bc, DirichletBC) else _default_bc
        ig = default_initial_guess if (can_omit_initial_guess and initial_guess is None) else initial_guess
        if ig is None:
            ig = default_initial_guess
        # The single solve eliminates the BC columns, so the guess has to carry
        # the boundary values of this call.
        ig = np.asarray(ig).at[effective_bc.bc_rows].set(effective_bc.bc_vals)
        return differentiable_solve(traced_params, ig, effective_bc, traced_structure)

    return solver_wrapper
