#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below (python3 tools/gen.py, run by hand)."""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parents[1]
G, T, S, M = "src/dxss/gmres.py", "src/dxss/precomp_time_int.py", "src/dxss/space_time.py", "src/dxss/meshes.py"
D = ["src/dxss/solve_1d.py", "src/dxss/solve_2d.py", "src/dxss/solve_3d.py"]
STANDIN = ("dolfinx and dxh are not installed: the code runs on lib/standin, a serial numpy implementation of the "
           "parts of their API it uses (affine simplices, permuted degrees of freedom); real ufl, PETSc and gmsh. "
           "MPI-parallel runs of the finite-element part are not explored.")

P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, state=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state))


prop("G01", "GMRES results meet the requested tolerance, and the residual is the true one",
     "Whenever the GMRES solver returns, the residual vector it returns equals b - A x for the returned x up to rounding. "
     "The preconditioned residual of x is at most the larger of the absolute tolerance and the relative tolerance times the "
     "preconditioned norm of b, with the documented defaults (1e-12 absolute, 1e-7 relative) standing in for omitted values. "
     "The first component of the result is the solution and the second is the residual.",
     ["inputs", "configurations"],
     "every linear operator, preconditioner, right-hand side, tolerance, restart length and step budget for which the call returns (tolerances attainable in double precision)",
     "the tests solve two fixed systems with default settings and never look at the residual; tolerance and restart handling depend on values they do not try",
     [G], [("PETSc KSP set-up and tolerances, residual computation", f"{G}:get_gmres_solution")],
     "property-based testing against a dense linear-algebra oracle",
     "Generated systems up to about 60 unknowns (diagonal, random, non-normal, indefinite, singular consistent, shifted) with generated preconditioners, tolerances, restarts; oracle is numpy on the densified operator. Trusts PETSc's vector kernels and numpy.")
prop("G02", "GMRES never fails silently, and succeeds when the step budget suffices",
     "The GMRES solver never returns a vector that misses the requested tolerance: if it cannot reach it within the step budget, it raises an error instead. "
     "If exact full-recurrence GMRES for the same system reaches the tolerance within the step budget and restart length, the call returns normally. "
     "It uses about one operator and one preconditioner application per step, stops once the tolerance is met, and never returns non-finite values, whatever the operator or preconditioner produces.",
     ["inputs", "configurations"],
     "every system, preconditioner, tolerance, restart length and step budget, including budgets of a few steps and systems where restarted GMRES stagnates",
     "the tests only contain cases that converge, so neither failure reporting nor the budget is exercised",
     [G], [("converged reason check and iteration limit", f"{G}:get_gmres_solution")],
     "property-based testing against a reference GMRES",
     "The reference is an Arnoldi least-squares GMRES in numpy; cases within a safety band around the budget or the tolerance are not judged.")
prop("G03", "GMRES leaves its inputs alone and is independent of earlier solves",
     "The GMRES solver does not modify b, and returns fresh vectors that later calls do not overwrite. "
     "It does not modify the operator or the preconditioner. "
     "The result of a call does not depend on calls made before it, whatever their settings, success or failure.",
     ["inputs", "histories"],
     "every sequence of calls with differing systems, tolerances, restarts and outcomes",
     "the tests make isolated calls; state left in PETSc's global option database or in shared vectors shows only in sequences",
     [G], [("option database, shell matrix and vector creation", f"{G}:get_gmres_solution")],
     "stateful property-based testing (call sequences, differential against a fresh process order)",
     "Sequences of up to a handful of calls; a call in a sequence is compared bitwise-close with the same call made on its own.")
prop("G04", "GMRES history printing and run-time options work as documented",
     "With rate printing on, the GMRES solver prints one line per iteration, numbered from 0 without gaps, whose value is the preconditioned residual norm at that iteration (non-increasing within a restart cycle), and with it off it prints no such line. "
     "The step limit, the restart length and the tolerances given by the caller govern the iteration. "
     "PETSc run-time options set by the user override them for the calls made while they are set, and stay as the user set them.",
     ["inputs", "configurations"],
     "every system and every combination of print flag, tolerance, restart, step limit and user option",
     "the tests do not read the output or set options",
     [G], [("convergence monitor", f"{G}:convergence_monitor"), ("option handling", f"{G}:get_gmres_solution")],
     "property-based testing against a reference iteration history",
     "The printed history is compared with the reference GMRES residual history to the printed precision.")

prop("G05", "GMRES works on vectors distributed over processes",
     "The GMRES solver accepts a right-hand side that is distributed in any way over the processes of its communicator (parts of differing sizes, empty parts), and that lives on any communicator (all processes, some of them, one of them). "
     "The callbacks get vectors that are distributed like b. Every process gets its part of one solution and of one residual, both distributed like b on b's communicator, and b stays as it was. "
     "The call returns on all processes of the communicator or raises on all of them, as it has to for the same system on one process: it returns what meets the tolerance, and succeeds if exact GMRES does within the step budget and restart length.",
     ["inputs", "configurations", "schedules"],
     "every system, every distribution of its unknowns over processes, every communicator, and solves that run side by side on disjoint communicators",
     "the tests run on a single process",
     [G], [("creation of the shell matrix, the solver and the vectors", f"{G}:get_gmres_solution")],
     "property-based testing on real MPI processes against a dense linear-algebra oracle",
     "Open MPI with four processes on one machine, up to 20 unknowns, groups of one to four processes; the callbacks gather the vector and apply a dense matrix.")
prop("T01", "Time element matrices are the exact integrals of the time basis",
     "For every pair of primal and dual time orders from 0 to 3, each precomputed time matrix has one row per test and one column per trial function and holds the exact integral over the unit interval of the product of the corresponding (once differentiated where named) Lagrange basis functions, to rounding. "
     "Mass matrices are symmetric positive definite and reproduce exact integrals of polynomial products, and the derivative matrices annihilate constants.",
     ["inputs", "configurations"],
     "every order pair (q, q*) and every pair of coefficient vectors",
     "the tests compare no matrix entry; a wrong entry only shifts convergence rates",
     [T], [("symbolic integration per matrix", f"{T}:get_elmat_time")],
     "property-based testing against exact rational integration",
     "All 16 order pairs are enumerated in every run, with random coefficient vectors; the oracle is exact Fraction arithmetic.")
prop("T02", "Time basis is nodal, its derivatives are true, and lifting restores continuity",
     "For every order up to 3 the time basis functions are the Lagrange polynomials of the equidistant nodes of the unit interval (partition of unity, 1 at their own node and 0 at the others) and the listed derivatives are their derivatives at every time, also outside the interval and for array arguments. "
     "The jump-lifting function equals 1 at the left end of the reference slab and vanishes at the other two Radau points, its derivative is its true derivative, and subtracting it times the jump makes a discontinuous-in-time function continuous.",
     ["inputs"],
     "every order, basis index and evaluation time",
     "the tests evaluate the basis only through one end-to-end smoke run",
     [T], [("basis tables", f"{T}:basis_in_time"), ("lifting function", f"{T}:theta_ref, d_theta_ref")],
     "property-based testing against exact polynomial arithmetic",
     "Random times, orders and coefficient vectors; oracle in Fraction arithmetic.")
prop("T03", "Quadrature rules integrate polynomials of their stated degree on any interval",
     "Every time quadrature rule that can be constructed integrates all polynomials up to its theoretical degree of exactness over any interval, to the precision of its tabulated nodes, using its points for that interval and its weights for the interval length. "
     "Its points lie in the interval, are increasing, and map affinely with it, its weights are positive and sum to the interval length, and left Gauss-Radau rules include the left end point.",
     ["inputs", "configurations"],
     "every rule and point count, every interval and every polynomial of admissible degree",
     "the tests use one rule on the unit interval inside an end-to-end run",
     [T], [("nodes and weights, scaling", f"{T}:QuadRule")],
     "property-based testing against exact integration",
     "Every rule is visited in every run with random intervals and polynomials; the tolerance reflects the six-digit tables.")

SP = [S]
prop("S01", "Assembled matrices represent the documented variational formulation",
     "For every mesh, time and space orders, number of slabs, final time, data domain and stabilisation parameters, the assembled space-time matrix, its preconditioning variant and the slab matrices with and without jump terms, applied to two discrete functions, give the value of the stabilised space-time variational form evaluated on those functions. "
     "The form comprises the wave equation as a first-order system with Nitsche boundary terms, the data term on the data domain, the dual and primal stabilisation and the slab-interface jumps. "
     "The first-slab matrix is the one with the initial penalty exactly when the problem is well posed.",
     ["inputs", "configurations"],
     "every mesh in one to three dimensions, order combination, slab count, final time, stabilisation parameters, problem flags, and pair of discrete functions",
     "the tests assert on final norms of single configurations with dolfinx, which is not even installed in the pinned environment; a missing or mis-scaled term survives",
     SP, [("global form", f"{S}:SpaceTime.setup_spacetime_matrix"), ("slab form", f"{S}:SpaceTime.setup_slab_matrix")],
     "property-based testing against an independent reference implementation of the form",
     "Reference in lib/vh/ref.py: numpy polynomials and exact time matrices, no code shared with dxss. " + STANDIN)
prop("S02", "The space-time matrix is a symmetric saddle-point matrix",
     "The assembled space-time matrix is symmetric, its primal-primal block is positive semidefinite and its dual-dual block negative definite for positive stabilisation parameters, and coupling between different slabs exists only between neighbours. "
     "Without forward jumps the slab matrices are symmetric with the same signs.",
     ["inputs", "configurations"],
     "every mesh, order combination, slab count, final time, positive parameters and problem flags",
     "the tests never inspect the matrix",
     SP, [("global and slab forms", f"{S}:SpaceTime.setup_spacetime_matrix, setup_slab_matrix")],
     "property-based testing of structural invariants",
     "Symmetry, inertia signs and sparsity are read off the assembled matrix of generated configurations. " + STANDIN)
prop("S03", "The matrix-free product equals the assembled matrix",
     "For every vector, applying the space-time operator matrix-free (also through its PETSc matrix wrapper) gives the product of the assembled space-time matrix with that vector, up to rounding. "
     "The input vector is unchanged, the output is overwritten, and repeated products give the same result.",
     ["inputs", "configurations", "histories"],
     "every vector, mesh, order combination, slab count and problem flag, and every sequence of products",
     "the tests never form both operators",
     SP, [("slab-wise product with interface coupling", f"{S}:SpaceTime.apply_spacetime_matrix"), ("PETSc wrapper", f"{S}:SpaceTimePETScMatrixWrapper")],
     "differential property-based testing (matrix-free vs assembled)",
     "One recorded known finding (forward jumps are not applied matrix-free): the check verifies that the deviation is exactly those terms. " + STANDIN)
prop("S04", "The discrete operator is consistent with exact solutions of the wave equation",
     "If a wave solution with zero boundary values lies in the discrete space, then the space-time matrix applied to it (with zero dual variable and with its time derivative as second component) equals the assembled right-hand side for its data, for every stabilisation parameter and every placement of the data domain. "
     "If its boundary values do not vanish, the only residual is their weakly imposed boundary penalty. "
     "The property does not depend on the mesh, the degrees-of-freedom numbering or the number of slabs.",
     ["inputs", "configurations"],
     "every polynomial wave solution in the space, every mesh, order, slab count, final time and parameters",
     "the tests check one error number for one trigonometric solution, which tolerates inconsistent terms of small size",
     SP, [("global form and right-hand side", f"{S}:SpaceTime.setup_spacetime_matrix, setup_rhs")],
     "property-based testing with manufactured polynomial solutions",
     "Polynomial solutions and general polynomials are generated exactly (lib/vh/poly.py). " + STANDIN)
prop("S05", "The right-hand side represents the measured data and the initial data",
     "The assembled right-hand side tested with any discrete function equals the data parameter times the integral over time and over the data domain of the given solution times the first primal component, plus for well-posed problems the penalty terms of the initial displacement and velocity on the first slab, and nothing else. "
     "The initial data are those set before the right-hand side is first requested.",
     ["inputs", "configurations"],
     "every solution that is polynomial in time up to the accuracy of the quadrature, data domain, initial data, mesh, orders, slab count and parameters",
     "the tests use one solution and never compare the load vector",
     SP, [("linear form", f"{S}:SpaceTime.setup_rhs")],
     "property-based testing against an independent quadrature of the data",
     "The tolerance covers the six-digit Radau table of the code. " + STANDIN)
prop("S06", "The time-marching preconditioner is exact block forward substitution",
     "Applying the time-marching preconditioner solves, up to the accuracy of the slab solvers, the system whose matrix is the assembled preconditioning variant of the space-time matrix (with forward jumps: its block lower triangular part, made of the slab matrices and the coupling to the previous slab); the improved variant and its PETSc wrapper give the same result as the plain one. "
     "It is causal: the result on the first slabs does not depend on the right-hand side of later slabs, and it is linear, leaves its input unchanged and does not depend on earlier applications. "
     "When forward jumps are part of the problem the improved variant refuses with an error rather than return a wrong result.",
     ["inputs", "configurations", "histories"],
     "every right-hand side vector, mesh, order combination, slab count, parameters and sequence of applications",
     "the tests only observe that GMRES converges, which a wrong preconditioner often still allows",
     SP, [("slab marching", f"{S}:SpaceTime.pre_time_marching, pre_time_marching_improved"), ("preparation", f"{S}:SpaceTime.prepare_precondition_gmres"), ("PETSc wrapper", f"{S}:SpaceTimePETScPreconditionerWrapper")],
     "property-based testing (inverse, causality and differential relations)",
     "Judged by residuals, not forward errors. With forward jumps the plain variant is compared with block substitution of its own slab matrices. " + STANDIN)
prop("S07", "The preconditioned Krylov solve agrees with the direct solve",
     "Solving the space-time problem by GMRES with the matrix-free operator and the time-marching preconditioner gives, to the requested tolerance, the solution of the assembled linear system with the assembled right-hand side. "
     "It succeeds whenever exact GMRES for the assembled system and preconditioner does so within the allowed steps, and leaves the right-hand side unchanged.",
     ["inputs", "configurations"],
     "every mesh, order combination, slab count, parameters, data and tolerance for which the system is solvable",
     "the tests run one configuration per dimension and need dolfinx",
     [S, G], [("GMRES", f"{G}:get_gmres_solution"), ("wrappers", f"{S}:SpaceTimePETScMatrixWrapper, SpaceTimePETScPreconditionerWrapper")],
     "differential property-based testing (Krylov vs direct)",
     "Compared by residual norms in the assembled system. " + STANDIN)
prop("S08", "Measured errors are the true errors of the discrete solution",
     "For every coefficient vector the reported errors are: the spatial L2 error of the displacement at the final time, the maximum over 105 equidistant times in [0, T] of the spatial L2 errors of displacement and velocity, and the space-time L2 error of the velocity, where the discrete function is the continuous-in-time lifting of the slab-wise polynomials. "
     "The errors vanish for exact polynomial solutions in the discrete space, and measuring changes neither the coefficient vector nor the initial data.",
     ["inputs", "configurations"],
     "every coefficient vector, exact solution, mesh, orders, slab count and final time",
     "the tests compare errors with loose bounds for one solution; a wrong sample, weight or lifting stays inside",
     [S, T], [("error measurement", f"{S}:SpaceTime.measured_errors"), ("lifting", f"{T}:theta_ref, d_theta_ref")],
     "property-based testing against independent error computation",
     "At slab interfaces either one-sided value of the velocity is accepted. " + STANDIN)
prop("S09", "Results do not depend on the order or repetition of calls",
     "After the finite element spaces are set up, matrices, right-hand side, slab matrices, products, preconditioner results, errors and plots obtained from a solver object are the same as from a fresh object asked only for that result, whatever sequence of other requests came before. "
     "Requested variants (with or without the preconditioning modification) are honoured on every request. "
     "The right-hand side refers to the initial data at its first request or explicit set-up.",
     ["histories", "configurations"],
     "every sequence of public calls on a solver object",
     "the tests follow one fixed call order",
     SP, [("lazily cached matrices and vectors", f"{S}:SpaceTime getters and setup methods")],
     "stateful (model-based) property-based testing of call histories",
     "Histories of up to about ten calls compared with a fresh object per request. " + STANDIN)
prop("S10", "Grid transfer and the two-level preconditioner are consistent",
     "Prolongation reproduces on the fine mesh every function of the coarse space, and restriction followed by evaluation interpolates at the coarse nodes, so restricting a prolongated function returns it, for primal and dual variables and all slabs. "
     "The coarse matrix is the space-time matrix of the coarse mesh, the coarse operator solves with it between restriction and prolongation, and the two-level preconditioner is the coarse correction followed by time marching on the remaining residual. "
     "None of these changes its input.",
     ["inputs", "configurations", "histories"],
     "every coarse and fine mesh pair (nested), orders (also differing primal and dual order), slab count and coefficient vector",
     "no test touches the coarse-grid correction",
     SP, [("coarse correction", f"{S}:SpaceTime.prepare_coarse_grid_correction, prolongation, restriction, q_op, pre_twolvl")],
     "property-based testing (round trip, differential, composition relations)",
     "The right-hand side must have been assembled first, as in the drivers. " + STANDIN)
prop("S11", "Solver objects are isolated from each other and from their configuration objects",
     "Building and using a solver object changes none of the configuration objects passed to it (orders, parameters, stabilisation terms, data domain, solution), and a configuration object may be shared by several solver objects on different meshes. "
     "The results of a solver object are unaffected by other solver objects built or used before, after or in between. "
     "Omitted problem parameters mean no forward jumps and not well posed for every object.",
     ["histories", "configurations"],
     "every interleaving of construction and use of several solver objects sharing configuration objects",
     "each test builds one object",
     SP, [("constructor and default parameters", f"{S}:SpaceTime.__init__, ProblemParameters")],
     "stateful property-based testing of interleaved objects",
     "Two to three objects per case, compared with objects built alone. " + STANDIN)
prop("S12", "Plots and written files show the discrete solution and its error",
     "The plotted fields hold, at every plotted point and time, the values of the discrete displacement and velocity (or their magnitude, or their absolute error against the exact solution) on the space-time grid that labels the axes. "
     "The written output files hold the mesh and the nodal absolute errors of displacement and velocity at the final time under the requested name. "
     "Plotting changes neither the coefficient vector nor the solver's state.",
     ["inputs", "configurations"],
     "every coefficient vector, solution, mesh, orders, slab count, and plot resolution",
     "no test looks at a plot",
     SP, [("plots", f"{S}:SpaceTime.plot, plot_error"), ("output", f"{S}:SpaceTime.plot_para_view")],
     "property-based testing of recorded plot and file contents",
     "matplotlib draw calls and the stand-in's XDMF writer are recorded and compared with direct evaluation. " + STANDIN)
prop("S13", "Discrete solutions converge to the exact solution at the expected rate",
     "For smooth exact solutions with zero boundary values and well-posed or geometrically controlled data, the measured errors of the discrete solution decrease under joint refinement of mesh and slabs at about the rate the polynomial order provides. "
     "This holds for every admissible order pair and stabilisation choice, whether the system is solved directly or iteratively.",
     ["inputs", "configurations"],
     "every smooth solution (random modes, phases and amplitudes), order and stabilisation scaling",
     "the tests run one refinement level",
     SP, [("whole pipeline", f"{S}:SpaceTime")],
     "metamorphic property-based testing (errors under refinement)",
     "One-dimensional, two to three refinement levels, rate judged with slack. " + STANDIN)

prop("M01", "Generated meshes cover their domain with conforming, non-degenerate cells",
     "Every mesh generator returns a mesh (or hierarchy) whose cells have positive volume, do not overlap and together fill exactly the documented domain (unit square, unit cube, or the square [-1.5, 1.5]^2), every interior facet being shared by exactly two cells and every vertex being used. "
     "Cells get smaller and more numerous as the size factor decreases, and meshes of higher order have their nodes in the documented order and unfolded cells that follow the curved interface.",
     ["inputs", "configurations"],
     "every generator, size factor and interface position in its valid range",
     "the tests use one generator with one size",
     [M], [("gmsh models and conversion to dolfinx", f"{M}")],
     "property-based testing of geometric invariants",
     "gmsh is real; dolfinx mesh creation, reading and refinement are the stand-in's, which keeps the given points and cells.")
prop("M02", "Generated meshes are fitted to the subdomain interfaces",
     "No cell of a generated mesh is cut by an interface of the documented geometry: data domain, target domain, inclusion and the interface height given by the caller each consist of whole cells. "
     "A piecewise constant indicator of such a subdomain is therefore exact.",
     ["inputs", "configurations"],
     "every generator, size factor and interface position in its valid range",
     "the tests do not look at interfaces",
     [M], [("gmsh fragments", f"{M}")],
     "property-based testing of geometric invariants",
     "The curved (disc) interface is judged by vertices lying on it and by chord error. Stand-in as for M01.")
prop("M03", "Mesh hierarchies are nested uniform refinements of the requested depth",
     "A hierarchy requested with n refinements has n + 1 meshes ordered from coarse to fine, each cell of a level being the union of exactly four (in 3D eight) cells of the next level, and the first being the unrefined mesh. "
     "The convex family instead returns the requested number of independent meshes, each generated with half the size factor of the one before. "
     "This holds with DOLFINx 0.6 and 0.7.",
     ["inputs", "configurations"],
     "every hierarchy generator, refinement count and size factor",
     "the tests use one hierarchy and never compare its levels",
     [M], [("refinement loops", f"{M}:get_mesh_hierarchy, get_mesh_hierarchy_nonconvex, get_mesh_hierarchy_fitted_disc, get_mesh_data_all_around, get_3d_mesh_data_all_around, get_mesh_convex")],
     "property-based testing of geometric invariants",
     "Uniform refinement itself is the stand-in's; which edges and meshes are refined, and how often, is the code's.")
prop("M04", "Mesh generation is repeatable and leaves no state behind",
     "Any sequence of mesh generator calls in one process gives for each call the same mesh as that call made alone, regardless of what was generated before. "
     "After each call the mesh generator library is finalised again, so that the caller can use it, and no generator changes module-level settings.",
     ["histories", "configurations"],
     "every sequence of generator calls with differing arguments",
     "the tests make one call",
     [M], [("gmsh initialise/finalise pairs, intermediate files", f"{M}")],
     "stateful property-based testing of call sequences",
     "Sequences of two to five calls; DOLFINx 0.6 API except for the generator that also supports 0.7.")
prop("M05", "Mesh files written by the generators label the subdomains and the boundary",
     "After a generator call the mesh file in the working directory holds the returned (coarsest, or last of the convex family) mesh. "
     "For the unit-square generators every documented subdomain carries one marker of its own (for the convex and nonconvex geometries 1 is the data domain, 2 the target domain and 3 the rest, the data domain of the convex geometry being everything outside the target and the strip above it), "
     "and the boundary file holds exactly the edges on the outer boundary, with marker 1.",
     ["inputs", "configurations"],
     "every generator that writes files, size factor and interface position in its valid range, whatever files were there before",
     "the tests never read the files",
     [M], [("physical groups and mesh file conversion", f"{M}")],
     "property-based testing of the written files against the returned mesh",
     "Files are read back with meshio. No subdomain markers are claimed for the disc geometry beyond positivity.")
prop("D01", "The drivers' sample solutions solve the stated problem exactly",
     "The sample solution of each driver is a nontrivial solution of the wave equation at every time and point, vanishes on the boundary of the unit interval, square or cube at all times, and its stated time derivative is its true time derivative. "
     "The drivers' data domains are the documented subsets: their indicators are 1 exactly within distance 0.2 (0.25 in 3D) of the boundary, respectively of the left end, and 0 elsewhere, and the driver's problem uses that set.",
     ["inputs", "configurations"],
     "every time and point of the domain, and both settings of the 3D driver's geometric control and resolution constants",
     "the tests only bound the error between computed and sample solution for one resolution",
     D, [("sample solutions and indicators", "src/dxss/solve_*d.py:sample_sol, dt_sample_sol, omega_ind_*")],
     "property-based testing of the differential equation at random points",
     "Derivatives are taken by eighth-order differences of ufl's own point evaluation. " + STANDIN)
prop("D02", "The drivers' solver back ends give the same discrete solution",
     "Each driver's solution procedure produces, whichever of its three linear solver back ends is selected and whatever was solved before, the same coefficient vector to solver tolerance, namely the solution of its space-time problem. "
     "The direct sparse library is used when it is installed and the PETSc factorisation otherwise. "
     "With error measurement requested it measures the errors of exactly that vector, and without it no errors are measured.",
     ["configurations", "histories"],
     "every driver and back end, with and without the direct sparse library, and repeated solves in any order",
     "the tests run one back end",
     D + [S, G], [("back-end selection", "src/dxss/solve_*d.py:solve_problem")],
     "differential property-based testing over back ends",
     "Run with few slabs and coarse meshes (driver constants changed in an imported copy); the direct sparse library is a recording substitute with the same interface. " + STANDIN)
prop("D03", "The linear-solver adapters solve with the matrix they were given",
     "The adapter around the direct sparse solver writes the solution of the factorised system for the given right-hand side into the output vector, leaves the right-hand side and the matrix unchanged, and can be reused for any number of right-hand sides and alongside other adapters. "
     "It warns on every construction exactly when the direct solver library is unavailable. "
     "The PETSc LU helper likewise solves with its own matrix for every right-hand side. "
     "The conversion to a sparse matrix preserves every entry and the shape, in an independent copy.",
     ["inputs", "histories"],
     "every nonsingular sparse matrix, right-hand side and sequence of solves",
     "the tests do not have the library",
     D + [S], [("adapters", "src/dxss/solve_*d.py:PySolver, get_lu_solver"), ("conversion", f"{S}:get_sparse_matrix")],
     "property-based testing against dense solves",
     "The direct sparse library is a substitute with the same (phase-based) interface that checks the protocol.")
prop("D04", "The drivers' solutions approximate their sample solutions",
     "Each driver solves the unique continuation problem its constants describe: polynomial orders in space and time, primal and dual, number of slabs, final time, resolution level, stabilisation weights and data domain all enter the space-time system, on the unit interval, square or cube, with the sample solution as data. "
     "For the shipped families of orders the computed solution then approximates the sample solution over the whole domain, not only where data is given: "
     "the errors decrease with the resolution and with the order, and stay below twice their established size. The shipped stabilisation weights are positive.",
     ["inputs", "configurations"],
     "every choice of orders, slabs, final time, weights, geometric control and resolution",
     "the tests bound the error of one resolution of one driver at most",
     D + [S], [("drivers", "src/dxss/solve_*d.py: module level and solve_problem"), ("discretisation", f"{S}")],
     "property-based testing against an independently configured system and calibrated error limits",
     "Resolutions with up to 16 slabs in 1D, levels 0-2 in 2D and 0-1 in 3D; final times from 1 to 1.25 in 1D and 0.5 to 1.25 in 2D and 3D; the limits are twice the errors of the corrected code. " + STANDIN)

NA = []


def main():
    have = [p for p in P if (ROOT / "checks" / f"p_{p['pid'].lower()}.py").is_file()]
    with open(ROOT / "properties.jsonl", "w") as f:
        for p in have:
            assert len(p["title"]) <= 80, p["title"]
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            f.write(json.dumps({"id": p["pid"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": [{"property": p["pid"], "quick_cmd": f"./check.sh {p['pid']} --tier quick",
                    "thorough_cmd": f"./check.sh {p['pid']} --tier thorough", "technique": p["technique"],
                    "level": "exploration", "level_note": p["note"]} for p in have],
        "not_applicable": NA,
        "notes": "All checks are generated-input search; /repo carries no hooks. See DESIGN.md.",
    }
    (ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
    print(len(have), "properties")


main()
