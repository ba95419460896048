"""The claimed properties: text, anchors, and the code each one is decided on.

`scope` is a list of regular expressions over qualified names (without the
leading "feax.") of functions, methods, classes and constants.  A disagreement
found in a function is reported under every property whose scope names it.
`relations` names the relational obligations of sa/relations.py and
`rules` the structural rules of sa/rules.py that belong to the property.
"""

PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, scope, relations=(), rules=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                      files=files, mech=mech, scope=scope, relations=list(relations), rules=list(rules)))


P("C01", "Containers survive JAX transformations and copying unchanged",
  "Every container the library registers with JAX (boundary conditions, traced parameters, traced structure, sparse matrices, solutions, problems) is rebuilt from its flattened form with the same contents, split between traced leaves and static data the way it was flattened. "
  "The copy-with-changes methods change exactly the entry they are asked to change and leave the original object and every other field as they were.",
  ["inputs", "histories"],
  "all container contents, any number of flatten/unflatten or replace steps, inside jit, vmap, grad or outside",
  "Tests flatten a handful of instances with particular shapes and check few of the fields; a field dropped, swapped or moved between leaves and static data only shows under transformations the tests do not combine.",
  ["feax/DCboundary.py", "feax/traced_params.py", "feax/traced_structure.py", "feax/csr.py", "feax/solution.py", "feax/problem.py"],
  [("tree_flatten/tree_unflatten pairs", "feax/csr.py, feax/solution.py, feax/traced_params.py, feax/traced_structure.py, feax/problem.py"),
   ("_dirichletbc_flatten/_dirichletbc_unflatten", "feax/DCboundary.py"),
   ("replace_vals, replace_volume_var, replace_surface_var, with_data", "feax/DCboundary.py, feax/traced_params.py, feax/csr.py")],
  [r"DCboundary\.(DirichletBC|_dirichletbc)\b.*", r"DCboundary\._dirichletbc_.*", r"traced_params\..*", r"traced_structure\..*", r"csr\..*", r"solution\..*",
   r"problem\.Problem(\.tree_.*)?$", r"problem\.Problem\.__post_init__", r"spgrid\.SparseDesign.*", r"problem\.MatrixView"],
  relations=[])

P("C02", "Dirichlet conditions are imposed exactly on the selected degrees of freedom",
  "A boundary condition built from location functions, components and values selects exactly the degrees of freedom of the nodes where the location holds, with the prescribed value for each, duplicates resolved consistently. "
  "Applied to a residual it leaves (unknown minus prescribed value) on those entries and nothing else changed; applied to a Jacobian it leaves identity rows (and zeroed columns when symmetric elimination is requested) on those entries and nothing else changed.",
  ["inputs", "configurations"],
  "all meshes, element types, variable counts, components, location predicates, values, and both elimination modes",
  "The suite checks a few boxes with one or two clamped faces; wrong offsets for later variables, components or duplicate specifications are outside the sampled cases.",
  ["feax/DCboundary.py", "feax/fe.py", "feax/assembler.py"],
  [("DirichletBC.from_specs / DirichletBCConfig.create_bc", "feax/DCboundary.py"),
   ("apply_boundary_to_res, apply_boundary_to_J_csr", "feax/DCboundary.py"),
   ("get_boundary_conditions_inds", "feax/fe.py")],
  [r"DCboundary\..*", r"fe\.FiniteElement\.get_boundary_conditions_inds", r"solvers\.common\.create_x0.*", r"utils\.zero_like_initial_guess",
   r"assembler\.create_(J_bc|res_bc|res_J_bc|matfree).*", r"problem\.Problem\.__post_init__", r"problem\.Problem\._build_csr_assembly_structure"])

P("C03", "Values passed at solve time replace the build-time ones everywhere",
  "When a solver built once is called with traced parameters, a replacement boundary condition, or a traced structure, the residual, the tangent, the initial guess, and the derivative all use the values passed to that call and none uses values captured when the solver was built. "
  "Calling without a replacement uses the build-time values.",
  ["inputs", "histories"],
  "all sequences of calls with changing parameters, boundary values and structures on one built solver",
  "Tests call a solver with one replacement at most and look at the primal value; a stale captured value in one branch (adjoint, line search, fused assembly, direct path) is invisible until exactly that option combination is differentiated.",
  ["feax/solver.py", "feax/solvers/linear.py", "feax/solvers/newton.py", "feax/solvers/reduced.py", "feax/assembler.py"],
  [("parametric residual/Jacobian factories", "feax/assembler.py create_*_parametric"),
   ("solve closures taking (traced_params, initial_guess, bc, traced_structure)", "feax/solvers/linear.py, feax/solvers/newton.py, feax/solvers/reduced.py")],
  [r"solver\..*", r"solvers\.linear\..*", r"solvers\.newton\..*", r"solvers\.reduced\..*", r"assembler\.(create_.*|get_.*|_get_.*|_residual_flat|_assemble.*|compute_.*|split_.*|_csr_data.*)",
   r"solvers\.common\.create_x0.*", r"DCboundary\.DirichletBC\.replace_vals", r"traced_params\..*", r"utils\.zero_like_initial_guess", r"solvers\.amg\.amg_to_krylov_options",
   r"flat\.solver\..*"],
  relations=["ts_none"])

P("C04", "Gradients through a solve are the implicit-function derivative",
  "Differentiating a differentiable solver returns the derivative of the converged solution: the cotangent is solved against the transposed tangent at the solution, then pulled back through the boundary-condition-aware residual to every differentiable argument, with the sign and the boundary-value contribution the implicit function theorem gives. "
  "Quantities that are not differentiated get zero or no cotangent, never a wrong one.",
  ["inputs", "configurations"],
  "all problems, cotangents, option combinations, matrix views and elimination modes, for linear, Newton, reduced, eigenvalue, multigrid and homogenisation solvers",
  "Finite-difference tests sample a couple of parameters on symmetric problems, where a missing transpose or swapped pull-back argument is invisible.",
  ["feax/solvers/linear.py", "feax/solvers/newton.py", "feax/solvers/reduced.py", "feax/solvers/eigen.py", "feax/solvers/cmg.py", "feax/flat/solver.py"],
  [("custom_vjp f_fwd/f_bwd pairs", "feax/solvers/linear.py, feax/solvers/newton.py, feax/solvers/reduced.py, feax/solvers/eigen.py, feax/solvers/cmg.py, feax/flat/solver.py"),
   ("linear_solve_adjoint", "feax/solvers/linear.py"), ("transpose_with_maps", "feax/csr.py")],
  [r"solvers\.linear\..*", r"solvers\.newton\..*", r"solvers\.reduced\..*", r"solvers\.eigen\..*", r"solvers\.cmg\..*", r"flat\.solver\..*", r"csr\..*",
   r"solver\..*", r"assembler\.(create_.*|_residual_flat|_get_.*|get_.*)", r"solvers\.amg\..*", r"solvers\.common\..*", r"DCboundary\.apply_.*",
   r"gene\.responses\..*", r"gene\.filters\..*", r"traced_structure\..*"],
  rules=["custom_vjp_pairs"])

P("C05", "Tracing the mesh structure does not change what is computed",
  "Every operation that accepts a traced structure computes the same function of the mesh data whether the data come from the traced structure or from the problem it was made from. "
  "A traced structure made from a problem carries every array those operations read, unchanged.",
  ["inputs", "programs"],
  "all problems, and all arrays the assembly, solve and energy paths read",
  "Tests compare the two paths on a few problems, for outputs that do not exercise all of the arrays (surface data, per-variable offsets, transpose maps).",
  ["feax/traced_structure.py", "feax/assembler.py", "feax/problem.py"],
  [("TracedStructure.from_problem", "feax/traced_structure.py"), ("src = ts if ts is not None else problem", "feax/assembler.py")],
  [r"traced_structure\..*", r"assembler\..*", r"problem\.Problem\.(__post_init__|_build_csr_assembly_structure|tree_.*)", r"narrowband\..*", r"solvers\.linear\.create_linear_solver", r"solvers\.newton\..*",
   r"solver\.create_solver", r"solvers\.reduced\..*"],
  relations=["ts_none"])

P("C06", "The sparse pattern and scatter maps place every contribution once",
  "The compressed sparsity structure built for a problem holds every (row, column) pair that some element, face or boundary term couples, sorted and without duplicates, restricted to the requested triangle. "
  "The scatter maps send each element-matrix entry to the slot of its own row and column, entries outside the stored triangle are dropped, diagonal and transpose maps point to the matching slots.",
  ["inputs", "configurations"],
  "all meshes, variable counts, element types, boundary surfaces and matrix views",
  "Tests compare assembled matrices on small uniform meshes; a wrong slot for multi-variable blocks, faces or a triangle view escapes.",
  ["feax/problem.py", "feax/assembler.py", "feax/csr.py", "feax/asd.py"],
  [("_build_csr_assembly_structure", "feax/problem.py"), ("_csr_data_from_values, _vol_slot_sort, _assemble_volume_csr_data", "feax/assembler.py"), ("pattern functions", "feax/asd.py")],
  [r"problem\..*", r"assembler\.(_assemble.*|_csr_data.*|_vol_slot.*|_res_vol.*|_get_.*|get_.*|compute_residual.*|split_.*|compute_face|_scan.*|_pad.*|_batching|detect_zero.*)", r"asd\..*", r"csr\..*", r"traced_structure\..*"])

P("C07", "The tangent is the derivative of the assembled residual on every path",
  "For the same inputs, the assembled Jacobian, the fused residual-and-Jacobian evaluation, and the matrix-free product represent the derivative of one and the same residual, and the fused and batched evaluations return the same residual as the separate one. "
  "With an energy formulation, the residual is the derivative of the assembled energy.",
  ["inputs", "programs", "configurations"],
  "all kernels, solutions, internal variables, batch sizes and matrix views",
  "Tests compare paths for a few materials with one batch size; padded last batches, surface terms and multi-variable kernels are mostly not reached.",
  ["feax/assembler.py", "feax/asd.py"],
  [("_value_and_jacfwd, split_and_compute_cell, _scan_vmap_batched", "feax/assembler.py"), ("get_res, _get_J_csr, _get_res_J_csr", "feax/assembler.py"), ("create_matfree_*", "feax/assembler.py")],
  [r"assembler\..*", r"asd\..*", r"problem\.Problem\.(__post_init__|custom_init|get_.*)", r"csr\.CSRMatrix\.(__matmul__|with_data|_row_of_slot|rmatvec)", r"DCboundary\.apply_.*"],
  relations=["fused"])

P("C08", "Weak-form terms are integrated with the right contractions",
  "The volume, mass, surface and universal kernels built from user maps equal the weak form they stand for: gradients of the unknown contracted with test gradients and quadrature weights, values with test values, face terms with face weights, each internal variable passed to the user map at the quadrature point it belongs to and in the order given. "
  "Nodal, cell and quadrature-point data are told apart by their shape and interpolated accordingly.",
  ["inputs", "programs"],
  "all user-supplied maps, numbers of components and dimensions, and kinds of internal variables",
  "Kernels are tested with isotropic, mostly scalar or square data where transposed or permuted contractions coincide.",
  ["feax/assembler.py", "feax/problem.py", "feax/traced_params.py"],
  [("get_laplace_kernel, get_mass_kernel, get_surface_kernel", "feax/assembler.py"), ("_build_kernel_from_weak_form", "feax/assembler.py"), ("Operator", "feax/assembler.py"), ("classify_volume_var, interpolate_to_quad_points", "feax/assembler.py")],
  [r"assembler\..*", r"problem\.Problem(\..*)?", r"traced_params\..*", r"mechanics\.layered_solid_element\..*kernel.*", r"narrowband\.NarrowBand\.gather_params"])

P("C09", "Element geometry quantities are the mapped reference quantities",
  "Shape values, physical shape gradients and second derivatives, integration weights, face normals-scaled weights and physical quadrature points of every element are the reference ones mapped by the element's own coordinates. "
  "Interpolation from nodal values to volume and face quadrature points uses the element's own nodes and the matching shape values.",
  ["inputs", "configurations"],
  "all element types, node coordinates, boundary faces and numbers of components",
  "Tests integrate constants over regular boxes; distorted elements and higher-order second derivatives are hardly reached.",
  ["feax/fe.py", "feax/basis.py"],
  [("get_shape_grads, _compute_shape_hessians, get_face_shape_grads", "feax/fe.py"), ("convert_from_dof_to_quad, convert_from_dof_to_face_quad, sol_to_grad", "feax/fe.py"), ("get_shape_vals_and_grads", "feax/basis.py")],
  [r"fe\..*", r"basis\..*", r"assembler\.interpolate_to_quad_points", r"assembler\.Operator.*", r"mechanics\.layered_solid_element\..*"])

P("C10", "Element tables and node orderings agree across the library",
  "For every supported element type the node count, ordering permutation, face table, quadrature degree, external file cell name and mesh-generator element id all describe the same element wherever they are used. "
  "A node permutation and its inverse are applied the right way round, so that reading, generating, evaluating and writing a mesh see the same node positions.",
  ["configurations", "inputs"],
  "all element types in the tables and all meshes of them",
  "Only some element types appear in tests, mostly self-inverse linear ones; tables live in several modules and can drift apart silently.",
  ["feax/basis.py", "feax/mesh.py", "feax/utils.py", "feax/gene/sdf.py", "feax/fe.py"],
  [("get_elements, reorder_inds", "feax/basis.py"), ("get_meshio_cell_type, _GMSH_ELE_TYPE_ID, _ELE_INFO", "feax/mesh.py"), ("_XDMF_TOPOLOGY_TYPE", "feax/utils.py"), ("_MESHIO_TO_FEAX", "feax/gene/sdf.py")],
  [r"basis\..*", r"mesh\..*", r"utils\.(_XDMF.*|save_sol|XDMFWriter.*)", r"gene\.sdf\.(_MESHIO.*|_SIMPLEX.*|_TENSOR.*|DensityField.*|from_.*|_inside.*)", r"fe\.FiniteElement\.__post_init__", r"spgrid\.(_HEX8.*|StructuredGrid.*)",
   r"gene\.adaptive\._extract_tet4", r"gene\.mesh_extraction\..*", r"mechanics\.layered_solid_element\._tabulate.*"],
  rules=["element_tables"])

P("C11", "Solver options reach the solver they configure",
  "Each option a user sets (tolerances, iteration limits, restart, preconditioner, matrix type and view, ordering, near-null space, line search, verbosity, separate adjoint options) is passed unchanged to the stage it documents, whatever path of automatic selection, conversion or lowering the solver takes. "
  "Automatic selection depends only on the backend, the available solvers and the matrix property.",
  ["configurations"],
  "all option objects and all solver entry points",
  "Each test fixes nearly all options at their default value, so a dropped or swapped option is invisible.",
  ["feax/solver.py", "feax/solvers/options.py", "feax/solvers/common.py", "feax/solvers/amg.py", "feax/solvers/reduced.py", "feax/solvers/newton.py", "feax/solvers/linear.py"],
  [("resolve_direct_solver, resolve_iterative_solver", "feax/solvers/options.py"), ("amg_to_krylov_options", "feax/solvers/amg.py"), ("create_direct_solve_fn, create_iterative_solve_fn", "feax/solvers/common.py"), ("create_solver", "feax/solver.py")],
  [r"solver\..*", r"solvers\.options\..*", r"solvers\.common\..*", r"solvers\.amg\..*", r"solvers\.reduced\..*", r"solvers\.newton\..*", r"solvers\.linear\..*", r"solvers\.eigen\..*", r"flat\.solver\..*", r"solvers\.cmg\..*",
   r"gene\.filters\.create_.*"],
  rules=["option_fields"])

P("C12", "Invalid configurations are rejected and valid ones are not",
  "A configuration the library cannot honour (contradictory or unsupported options, missing required arguments, wrong shapes, unknown element or solver names, inconsistent multi-variable set-ups) raises an error when it is given instead of being silently replaced or ignored. "
  "Every combination the documentation allows is accepted and dispatched to an implementation.",
  ["configurations", "inputs"],
  "all combinations of option types, element types, variables and shapes",
  "Tests check a few error messages; the space of combinations is a product no suite enumerates.",
  ["feax/solver.py", "feax/solvers/options.py", "feax/problem.py", "feax/traced_params.py", "feax/solvers/reduced.py", "feax/solvers/direct/_callback_utils.py"],
  [("__post_init__ validation", "feax/solvers/options.py, feax/traced_params.py, feax/DCboundary.py"), ("_validate_multi_variable_setup", "feax/problem.py"), ("dispatch in create_solver", "feax/solver.py")],
  [r".*__post_init__", r"solver\.create_solver", r"solvers\.options\..*", r"problem\.Problem\._validate.*", r"problem\.Problem\.__post_init__", r"traced_params\..*", r"solvers\.reduced\..*", r"solvers\.direct\._callback_utils\..*",
   r"solvers\.common\..*", r"basis\.get_elements", r"mesh\..*", r"DCboundary\..*", r"solvers\.linear\..*", r"solvers\.newton\..*", r"solvers\.eigen\.create_.*", r"flat\..*", r"gene\.filters\..*", r"gene\.responses\..*",
   r"narrowband\..*", r"spgrid\..*", r"asd\..*", r"assembler\.(classify.*|create_.*)", r"solvers\.cmg\..*", r"gene\.optimizer\..*", r"solvers\.amg\..*", r"csr\..*", r"solvers\.direct\..*", r"utils\..*", r"mechanics\..*"],
  rules=["dispatch"])

P("C13", "Host direct solvers solve the system they are given",
  "The direct solvers called on the host receive the matrix of this call with its own pattern and values (transposed when asked), return the solution for each right-hand side of a batch in order, and never reuse a factorisation or symbolic analysis made for a different pattern or for other values. "
  "Batching over values, right-hand sides or both gives the same answers as solving one by one.",
  ["inputs", "histories", "schedules"],
  "all matrices, batch layouts, call sequences and interleavings of solvers sharing the caches",
  "Tests solve one or two systems per process, so cache reuse across patterns, values and namespaces is not exercised.",
  ["feax/solvers/direct/_callback_utils.py", "feax/solvers/direct/cholmod.py", "feax/solvers/direct/umfpack.py", "feax/solvers/direct/spsolve.py", "feax/solvers/common.py", "feax/solvers/eigen.py"],
  [("_factorize_and_solve_with_cache", "feax/solvers/direct/cholmod.py, feax/solvers/direct/umfpack.py"), ("vmap dispatch", "feax/solvers/direct/*.py"), ("prepare_batched_csr_payload", "feax/solvers/direct/_callback_utils.py")],
  [r"solvers\.direct\..*", r"solvers\.common\..*", r"solvers\.eigen\._.*", r"csr\..*", r"solvers\.reduced\._.*", r"solvers\.amg\._to_scipy_csr", r"flat\.solver\._.*", r"solvers\.options\.(resolve_direct.*|DirectSolver.*|SKSPARSE.*|CUDSS.*)"])

P("C14", "Sparse matrix operations agree with the dense matrix they represent",
  "Products, transposed products, transposition, diagonal extraction and conversion of a sparse matrix all describe one and the same dense matrix, and transposing twice gives the original. "
  "Products with a matrix stored as one triangle account for the other triangle exactly once.",
  ["inputs"],
  "all sparsity patterns (empty rows, repeated slots, rectangular shapes), values and operand shapes",
  "Tests use a few small square matrices.",
  ["feax/csr.py", "feax/solvers/common.py", "feax/asd.py"],
  [("CSRMatrix, CSRTranspose, transpose_with_maps", "feax/csr.py"), ("_matvec_with_matrix_view, _extract_sparse_diagonal", "feax/solvers/common.py")],
  [r"csr\..*", r"solvers\.common\.(_matvec.*|_extract.*|_as_csr.*|create_jacobi.*|check_conv.*)", r"solvers\.eigen\.(_to_scipy.*|_restrict.*)", r"solvers\.amg\._to_scipy_csr", r"asd\.(_.*|merge.*)", r"problem\.Problem\._build_csr.*"])

P("C15", "Newton iterations stop only on convergence or a stated limit",
  "Every Newton variant starts from the given guess with boundary values imposed, updates with the solution of the current tangent, accepts a step by the documented line-search rule, stops when the absolute or relative residual tolerance is met or the iteration limit is reached, and returns the last accepted iterate. "
  "Failure to find an acceptable step or to converge is reported the way the options say.",
  ["inputs", "configurations", "histories"],
  "all problems, starting points, tolerances, limits and line-search outcomes",
  "Tests run well-behaved problems that converge in a few full steps.",
  ["feax/solvers/newton.py", "feax/solvers/reduced.py", "feax/solvers/common.py", "feax/profiler.py"],
  [("while-loop condition/body pairs", "feax/solvers/newton.py"), ("create_armijo_line_search_scan", "feax/solvers/newton.py"), ("check_convergence", "feax/solvers/common.py")],
  [r"solvers\.newton\..*", r"solvers\.common\..*", r"solvers\.reduced\..*", r"solvers\.linear\.(linear_solve.*)", r"profiler\.profile_solver.*", r"solver\.create_solver", r"solvers\.options\.NewtonOptions.*", r"utils\.zero_like.*", r"solvers\.amg\..*"])

P("C16", "Time integration visits every step once with the right state and time",
  "A time run starts from the initial state, advances each step from the state and time the previous step left, covers exactly the requested interval (last step shortened, step size adapted only within its limits and by its documented factors), and calls saving, monitoring and callbacks at the documented intervals with the state of that time. "
  "Rejected or failed steps never leave partial state behind.",
  ["histories", "inputs", "configurations"],
  "all time configurations, adaptive step histories and callbacks",
  "Tests run a few fixed steps with default intervals.",
  ["feax/solvers/time_solver.py"],
  [("run", "feax/solvers/time_solver.py"), ("ImplicitPipeline.step, ExplicitPipeline.step", "feax/solvers/time_solver.py")],
  [r"solvers\.time_solver\..*"])

P("C17", "A solution's fields and arithmetic match its degree-of-freedom layout",
  "A solution returned by a solver exposes for each variable the nodal values laid out as the problem numbered them, flat and per-field views agree, and arithmetic with solutions, arrays or scalars is the arithmetic of the underlying vectors in the written operand order. "
  "Using a solution as a starting point or as nodal data for another problem uses exactly those values.",
  ["inputs"],
  "all variable counts, components, and operand types",
  "Tests use mostly one variable, where offsets vanish, and commutative operations.",
  ["feax/solution.py", "feax/problem.py", "feax/traced_params.py", "feax/solver.py"],
  [("Solution", "feax/solution.py"), ("Problem unflatten functions", "feax/problem.py"), ("node_var_from_solution", "feax/traced_params.py")],
  [r"solution\..*", r"traced_params\.(_is_solution|_coerce.*|TracedParams\.node_var_from_solution|TracedParams\.__post_init__|TracedParams\.create_node_var)", r"solver\.create_solver", r"problem\.Problem\.__post_init__", r"utils\.(save_sol|_normalize.*)", r"solvers\.reduced\..*"])

P("C18", "Periodic constraints tie exactly the matching degrees of freedom",
  "The periodic pairings pair each node of a slave face, edge or corner with the node at the same position on the master side, each dependent degree of freedom once, and the prolongation maps a reduced vector to a full vector in which paired entries are equal (rotated for cyclic symmetry) and all others independent. "
  "Homogenised stiffness is the volume-averaged stress response to each unit macroscopic strain, in the documented component order.",
  ["inputs", "configurations"],
  "all unit cells (any origin and size), dimensions, components and pairings",
  "Tests use unit cubes at the origin with one variable.",
  ["feax/flat/pbc.py", "feax/flat/unitcell.py", "feax/flat/solver.py", "feax/solvers/reduced.py", "feax/flat/utils.py"],
  [("periodic_bc_3D, periodic_bc_2D", "feax/flat/pbc.py"), ("prolongation_matrix, cyclic_prolongation_matrix", "feax/flat/pbc.py"), ("create_homogenization_solver, macro_displacement, average_stress", "feax/flat/solver.py")],
  [r"flat\.(pbc|unitcell|solver|utils|graph)\..*", r"solvers\.reduced\..*"])

P("C19", "Meshes cover the requested domain and mesh sessions are always closed",
  "Structured, imported, refined, extracted and adaptive meshes consist of valid elements of the requested type that cover the requested domain with the requested resolution, every node used and every cell referring to existing nodes in the library's ordering. "
  "Every external meshing session that is opened is closed on every exit, including errors, and options are applied to the session that uses them.",
  ["inputs", "configurations", "fault_sequences"],
  "all sizes, divisions, element types, size fields and failures of the external mesher",
  "Tests generate a few meshes and cannot make the mesher fail at each call.",
  ["feax/mesh.py", "feax/gene/adaptive.py", "feax/gene/mesh_extraction.py", "feax/gene/sdf.py", "feax/mechanics/copv.py", "feax/spgrid.py"],
  [("box_mesh, rectangle_mesh, sphere_mesh, cylinder_mesh, refine_mesh", "feax/mesh.py"), ("adaptive_mesh, adaptive_box_mesh", "feax/gene/adaptive.py"), ("extract_volume_mesh", "feax/gene/mesh_extraction.py")],
  [r"mesh\..*", r"gene\.(adaptive|mesh_extraction)\..*", r"gene\.sdf\.(SDF.*|_repair.*|from_.*)", r"mechanics\.copv\..*", r"spgrid\.(StructuredGrid|voxelize).*", r"flat\.unitcell\..*"],
  rules=["sessions"])

P("C20", "Structured-grid and narrow-band numbering maps are mutually consistent",
  "On a structured grid, cell and node numbers, grid positions and coordinates convert into one another without loss, and a band restricted to active cells keeps for each its own nodes, design values and loads. "
  "Scattering band results to the full grid and gathering them back returns the same values, inactive cells and nodes get the stated fill value, and re-extraction carries over the values of cells that stay.",
  ["inputs", "histories"],
  "all grid sizes, active sets, re-extraction sequences and per-cell or per-node data",
  "Tests use a few small grids with a particular active set.",
  ["feax/spgrid.py", "feax/narrowband.py"],
  [("StructuredGrid", "feax/spgrid.py"), ("SparseDesign", "feax/spgrid.py"), ("NarrowBand, SupersetBand", "feax/narrowband.py")],
  [r"spgrid\..*", r"narrowband\..*", r"solvers\.cmg\.(_design_of|_cap|auto_levels|_CORNERS|NarrowBandCMG\.(build|_build_transfer|compact_nodes|load_vector|__init__))", r"gene\.narrowband\..*"])

P("C21", "The multigrid compliance solver solves the band's elasticity system",
  "The narrow-band multigrid solver applies the stiffness of the active cells with their current design values, restricts and prolongs with mutually transposed transfers, honours supports and loads on the band's nodes, and returns the compliance and its design derivative for the solution it computed. "
  "Levels, smoothing steps, tolerances and coarse-solver choices act as documented.",
  ["inputs", "configurations"],
  "all grids, active bands, design values, supports, loads and level settings",
  "Tests solve one or two small cantilevers to a loose tolerance.",
  ["feax/solvers/cmg.py", "feax/gene/narrowband.py"],
  [("NarrowBandCMG", "feax/solvers/cmg.py"), ("make_KE_3d", "feax/solvers/cmg.py"), ("run_narrowband_oc", "feax/gene/narrowband.py")],
  [r"solvers\.cmg\..*", r"gene\.narrowband\..*", r"spgrid\.(SparseDesign|StructuredGrid|_HEX8).*", r"narrowband\..*"])

P("C22", "Topology-optimisation pieces compute the formulas they document",
  "Filters, projections, responses, constraint handling, optimality-criteria updates, continuation schedules and the optimisation loop compute the documented formulas of the current design: filter weights and normalisation, thresholds, compliance and volume, multiplier signs and damping, bounds and move limits, passive regions untouched. "
  "The loop records, in order, the values of the iterate it evaluated and returns the design it reports.",
  ["inputs", "histories", "configurations"],
  "all designs, meshes, schedules, constraints and optimiser settings",
  "Tests run a few iterations and check that the objective goes down.",
  ["feax/gene/filters.py", "feax/gene/responses.py", "feax/gene/mdmm.py", "feax/gene/optimizer.py", "feax/gene/narrowband.py", "feax/gene/sdf.py"],
  [("create_helmholtz_filter, create_density_filter, heaviside_projection", "feax/gene/filters.py"), ("create_compliance_fn, create_volume_fn", "feax/gene/responses.py"), ("run, Continuation", "feax/gene/optimizer.py"), ("oc_update", "feax/gene/narrowband.py"), ("eq, ineq, combine", "feax/gene/mdmm.py")],
  [r"gene\..*", r"flat\.graph\..*"])

P("C23", "Material, shell, cohesive and orientation models follow their definitions",
  "Stiffness matrices, rotations, laminate sums, plate strains and resultants, thermal loads, cohesive potentials and openings, orientation tensors, closures and averages, winding frames and contact-medium energies are the documented functions of their arguments, with matching component order and engineering-shear factors throughout.",
  ["inputs"],
  "all material constants, angles, layer stacks, displacement jumps and orientation states",
  "Tests check isotropic or unrotated cases where factors and component orders drop out.",
  ["feax/mechanics/shell.py", "feax/mechanics/layered_solid_element.py", "feax/mechanics/cohesive.py", "feax/mechanics/orientation.py", "feax/mechanics/copv.py", "feax/mechanics/tmc.py"],
  [("rotate_*_stiffness, laminate_stiffness, mindlin_weak_form", "feax/mechanics/shell.py"), ("voigt_to_tensor, rotate_stiffness_3d, layered kernels", "feax/mechanics/layered_solid_element.py"), ("exponential_potential, CohesiveInterface", "feax/mechanics/cohesive.py"), ("orientation_averaged_stiffness, closures", "feax/mechanics/orientation.py")],
  [r"mechanics\..*"])

P("C24", "Written result files contain the solution they were given",
  "Files written for visualisation contain the mesh points and cells in the file format's ordering and every field with its own name, in the right place (points or cells), padded or reshaped as the format needs without changing or permuting values. "
  "A series written step by step contains every step once with its own time and data, and stays readable after each step.",
  ["inputs", "histories", "crash_points"],
  "all meshes, element types, field ranks, names and write sequences",
  "Tests check that a file exists and one field's shape.",
  ["feax/utils.py", "feax/mesh.py", "feax/mechanics/copv.py"],
  [("save_sol", "feax/utils.py"), ("XDMFWriter", "feax/utils.py"), ("save_orientation_vtk", "feax/mechanics/copv.py")],
  [r"utils\..*", r"mechanics\.copv\.save_.*", r"mesh\.get_meshio_cell_type", r"gene\.sdf\.SDF\.to_(stl|mesh)", r"flat\.utils\.visualize.*", r"profiler\.JaxprInfo\.save"])

P("C25", "Launcher and environment set-up pass on what the user configured",
  "The distributed launcher starts one process per configured node with the coordinator address and port, process count and its own process number, the processes initialise with exactly those, and gathered results keep process order. "
  "Environment switches for precision and memory take effect as documented before the numerical library is loaded and never override a value the user set.",
  ["configurations", "histories"],
  "all cluster configurations and environment settings",
  "Tests cannot start a cluster and run in one environment only.",
  ["feax/distributed/__init__.py", "feax/__init__.py", "feax/profiler.py"],
  [("initialize, gather, _launch", "feax/distributed/__init__.py"), ("_resolve_x64_env, _resolve_preallocate_env", "feax/__init__.py")],
  [r"distributed\..*", r"<module>", r"solvers\.<module>", r"_resolve_.*", r"_keep_.*", r"enable_.*", r"x64_enabled", r"preallocate_enabled", r"__getattr__", r"profiler\..*"])

P("C26", "Buckling and eigenvalue solvers return the requested pairs of the right pencil",
  "The buckling solver solves the generalised problem of the stiffness and geometric stiffness restricted to the free degrees of freedom, returns the requested number of load factors in the documented order with modes extended by zeros on the constrained entries, and accepts results only when they meet the convergence test. "
  "Dense, sparse and matrix-free variants solve the same pencil.",
  ["inputs", "configurations"],
  "all stiffness pairs, free sets, numbers of modes and backends",
  "Tests compute one or two modes of one column.",
  ["feax/solvers/eigen.py"],
  [("create_linear_buckling_solver, _dense_buckling, _sparse_buckling, _matfree_buckling", "feax/solvers/eigen.py"), ("generalized_eigh", "feax/solvers/eigen.py")],
  [r"solvers\.eigen\..*", r"csr\..*", r"solvers\.common\._.*"])

P("C27", "Algebraic multigrid set-up uses the problem's own operator and null space",
  "The algebraic multigrid preconditioner is built from the matrix of the current call (or the stated sample), with the rigid-body or constant near-null space of the problem's own nodes, dimension and components, Dirichlet rows removed from it, and the Krylov options it is converted to keep every user setting. "
  "In reduced coordinates the near-null space is the projection of the full one.",
  ["inputs", "configurations"],
  "all problems (dimension, number of variables, components), supports and option objects",
  "Only converged results are tested; a wrong near-null space converges too, slowly, on small problems.",
  ["feax/solvers/amg.py", "feax/solvers/reduced.py"],
  [("rigid_body_modes, build_amg_preconditioner, amg_to_krylov_options", "feax/solvers/amg.py"), ("_project_reduced_nullspace, _reduced_amg_options", "feax/solvers/reduced.py")],
  [r"solvers\.amg\..*", r"solvers\.reduced\..*", r"solvers\.newton\._create_amg.*", r"solvers\.options\.AMG.*"])

NOT_APPLICABLE = [
  dict(id="N01", title="Discrete solutions converge to the exact solution under refinement",
       statement="With smooth data, refining the mesh makes the discrete solution converge to the exact solution at the rate of the element's polynomial degree.",
       over=["inputs"], qtext="all smooth problems and mesh sequences",
       why="Tests solve fixed meshes.", files=["feax/fe.py", "feax/assembler.py"], mech=[("Galerkin assembly", "feax/assembler.py")],
       reason="A statement about limits of floating-point solutions over mesh sequences; the error depends on runtime values that no static argument over this code bounds. The code's share (kernels, geometry, quadrature tables, assembly) is claimed in C06-C10."),
  dict(id="N02", title="Iterative solvers reach the requested accuracy on solvable systems",
       statement="For every well-posed system the iterative solvers reach the requested tolerance within the iteration limit.",
       over=["inputs"], qtext="all well-posed systems",
       why="Tests use small well-conditioned systems.", files=["feax/solvers/common.py", "feax/solvers/amg.py"], mech=[("Krylov and AMG calls", "feax/solvers/common.py")],
       reason="Depends on conditioning and rounding of runtime matrices and on external solver code; no static bound exists. The stopping and reporting logic is claimed in C15, option passing in C11."),
  dict(id="N03", title="The optimisation loop reaches a locally optimal feasible design",
       statement="For a feasible problem the optimisation loop ends at a design that is feasible and locally optimal within tolerance.",
       over=["inputs", "histories"], qtext="all feasible problems",
       why="Tests run a few iterations.", files=["feax/gene/optimizer.py"], mech=[("run", "feax/gene/optimizer.py")],
       reason="Optimality of the end point is a numerical outcome of runtime data (and of the external optimisers); static analysis can only decide the update formulas and bookkeeping, which C22 claims."),
  dict(id="N04", title="Generated meshes have positive Jacobians and requested quality",
       statement="Every mesh returned by the generators has positive element Jacobians and meets the requested size field.",
       over=["inputs"], qtext="all geometries and size fields",
       why="Tests build a few meshes.", files=["feax/mesh.py", "feax/gene/adaptive.py"], mech=[("gmsh calls", "feax/mesh.py")],
       reason="Decided by the external mesher at run time from floating-point geometry; the calls, orderings and session handling around it are claimed in C10 and C19."),
  dict(id="N05", title="Assembly and solve memory stay within the documented bounds",
       statement="Batched assembly keeps peak memory proportional to the batch size and results stay on the device without host copies.",
       over=["inputs", "schedules"], qtext="all problem sizes and devices",
       why="Tests do not measure memory.", files=["feax/assembler.py", "feax/profiler.py"], mech=[("batched scan", "feax/assembler.py")],
       reason="Peak memory and transfers are decided by the XLA compiler and allocator at run time, outside the source; the functional equality of batched and unbatched assembly is claimed in C07."),
]
