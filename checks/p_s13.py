"""S13: errors fall under refinement at the rate of the orders."""
import numpy as np
import scipy.sparse.linalg as spl
from hypothesis import strategies as st

from vh import stx
from vh.core import Info, Prop, Sub, require

ORD = [(1, 0, 1, 1), (1, 1, 1, 1), (2, 0, 2, 1), (2, 1, 2, 1), (2, 2, 2, 2), (2, 1, 1, 1), (1, 0, 2, 1), (2, 0, 2, 2), (3, 0, 3, 1), (3, 3, 3, 3)]
KEYS = ("L2-u1-T", "L-infty-L2-error-u", "L-infty-L2-error-ut", "L2-L2-error-u_t")

# smallest rate from the 4- to the 8-slab grid, and largest error on the finer one relative to the amplitude, for each
# quantity of KEYS and each order; measured over a grid of 2496 configurations and widened (rates by about 0.4, errors by 2)
RATE = {1: [None, 0.45, -0.2, 0.3], 2: [None, 1.4, 1.2, 1.5], 3: [None, 2.4, 2.2, 2.4]}
LEVEL = {1: [0.3, 0.3, 4.0, 2.0], 2: [0.018, 0.018, 0.7, 0.25], 3: [0.0012, 0.0012, 0.11, 0.03]}


def linear_solve(o, iterative):
    from dxss import space_time as stm
    from dxss.gmres import get_gmres_solution

    if iterative:
        o.prepare_precondition_gmres()
        b = o.get_spacetime_rhs()
        import petsc4py.PETSc as P

        for setter, mat in ((o.set_solver_slab, o.get_slab_matrix()), (o.set_solver_first_slab, o.get_slab_matrix_first_slab())):
            ksp = P.KSP().create(P.COMM_SELF)
            ksp.setOperators(mat)
            ksp.setType("preonly")
            ksp.getPC().setType("lu")
            setter(ksp)
        op, pre = stm.SpaceTimePETScMatrixWrapper(o), stm.SpaceTimePETScPreconditionerWrapper(o)
        x, _ = get_gmres_solution(A=op, b=b, pre=pre, maxsteps=2000, tol=1e-9, printrates=False)
        op.__dict__.clear(), pre.__dict__.clear()  # petsc4py keeps the contexts of a KSP alive for ever
        return stx.vec(np.array(x.array))
    b = np.array(o.get_spacetime_rhs().array)
    return stx.vec(spl.spsolve(stx.csr(o.get_spacetime_matrix()).tocsc(), b))


def judge(a, b, rate, level, size, p, info):
    info += f": errors {dict(zip(KEYS, a))} -> {dict(zip(KEYS, b))}"
    rates = np.log2(a / b)
    for i, name in enumerate(KEYS):
        require(np.isfinite(b[i]) and (rate[i] is None or b[i] < 4e-5 * size or rates[i] >= rate[i]), f"{name} has rate {rates[i]:.2f} at order {p}; {info}")
        require(b[i] <= level[i] * size, f"{name} is {b[i]:.3g} for amplitude {size:.3g} at order {p}; {info}")


def solve(c, N, nx, iterative=False):
    import ufl
    from dolfinx import _engine as E
    from dolfinx import mesh as dm
    from mpi4py import MPI

    from dxss import space_time as stm

    stx._memo_elmat()
    E.config.dof_seed = c["dof_seed"]
    pi = np.pi
    modes = [(m, a / 10.0) for m, a in ((1, c["a1"]), (2, c["a2"]))]
    ph = c["phase"] / 5.0

    def u(t, x):
        return sum(a * ufl.cos(m * pi * t + ph * m) * ufl.sin(m * pi * x[0]) for m, a in modes)

    def ut(t, x):
        return sum(-a * m * pi * ufl.sin(m * pi * t + ph * m) * ufl.sin(m * pi * x[0]) for m, a in modes)

    lo, hi = 0.25, 0.75
    q, qs, k, ks = ORD[c["ord"]]
    msh = dm.create_unit_interval(MPI.COMM_SELF, nx)
    o = stm.SpaceTime(
        stm.OrderTime(q, qs), stm.OrderSpace(k, ks), N=N, T=c["T"] / 4.0, t=0.0, msh=msh,
        stabilisation_terms={"data": 10.0 ** c["data"], "dual": 1.0, "primal": 1e-3, "primal-jump": 1.0},
        omega=stm.DataDomain(indicator_function=lambda x: ((x[0] <= lo) | (x[0] >= hi)).astype(float), fitted=True),
        solution=stm.ValueAndDerivative(u, ut), parameters=stm.ProblemParameters(well_posed=c["wp"], jumps_in_fw_problem=c["jumps"]))
    o.setup_spacetime_finite_elements()
    if c["wp"]:
        o.u1_0.interpolate(lambda X: sum(a * np.cos(ph * m) * np.sin(m * pi * X[0]) for m, a in modes))
        o.u2_0.interpolate(lambda X: sum(-a * m * pi * np.sin(ph * m) * np.sin(m * pi * X[0]) for m, a in modes))
    vec = linear_solve(o, iterative)
    e = o.measured_errors(vec)
    return np.array([float(e[x]) for x in KEYS])


def check(c):
    q, qs, k, ks = ORD[c["ord"]]
    c["jumps"] = c["jumps"] and not c["iterative"]
    if abs(c["a1"]) + abs(c["a2"]) < 2:
        c["a1"] = 10
    N = 4
    a = solve(c, N, 2 * N)
    b = solve(c, 2 * N, 4 * N, c["iterative"])
    p = min(q, k)
    size = (abs(c["a1"]) + 2 * abs(c["a2"])) / 10.0
    judge(a, b, RATE[p], LEVEL[p], size, p, f"orders {ORD[c['ord']]}, {'well posed' if c['wp'] else 'data assimilation'}")
    return Info(True, [str(ORD[c["ord"]]), "wp" if c["wp"] else "gcc", "gmres" if c["iterative"] else "direct"])




# two dimensions: from the 2- to the 4-slab grid with 4 x 4 and 8 x 8 squares
ORD2 = [(1, 0, 1, 1), (1, 1, 1, 1), (1, 1, 2, 1), (2, 0, 2, 1)]
# (measured over 910 configurations and widened in the same way)
RATE2 = {1: [None, 0.25, -0.4, 0.0], 2: [None, 1.3, 0.75, 0.4]}
LEVEL2 = {1: [0.33, 0.4, 3.6, 2.5], 2: [0.016, 0.022, 0.8, 0.28]}


def solve2(c, N, n, iterative=False):
    import ufl

    from dxss import space_time as stm

    stx._memo_elmat()
    from dolfinx import _engine as E

    E.config.dof_seed = c["dof_seed"]
    pi = np.pi
    modes = [(1, 1, c["a1"] / 10.0), (1, 2, c["a2"] / 10.0), (2, 1, c["a3"] / 10.0)]
    ph = c["phase"] / 5.0
    om = {(i, j): pi * np.sqrt(i * i + j * j) for i, j, _ in modes}

    def u(t, x):
        return sum(a * ufl.cos(om[i, j] * t + ph) * ufl.sin(i * pi * x[0]) * ufl.sin(j * pi * x[1]) for i, j, a in modes)

    def ut(t, x):
        return sum(-a * om[i, j] * ufl.sin(om[i, j] * t + ph) * ufl.sin(i * pi * x[0]) * ufl.sin(j * pi * x[1]) for i, j, a in modes)

    q, qs, k, ks = ORD2[c["ord"]]
    msh = stx.build_mesh({"kind": c["kind"], "n": [n, n], "lo": 0.0, "len": [1.0, 1.0], "jitter": 0.0, "seed": c["mesh_seed"]})
    o = stm.SpaceTime(
        stm.OrderTime(q, qs), stm.OrderSpace(k, ks), N=N, T=c["T"] / 4.0, t=0.0, msh=msh,
        stabilisation_terms={"data": 10.0 ** c["data"], "dual": 1.0, "primal": 10.0 ** c["primal"], "primal-jump": 1.0},
        omega=stm.DataDomain(indicator_function=lambda x: ((np.abs(x[0] - 0.5) >= 0.25) | (np.abs(x[1] - 0.5) >= 0.25)).astype(float), fitted=True),
        solution=stm.ValueAndDerivative(u, ut), parameters=stm.ProblemParameters(well_posed=c["wp"], jumps_in_fw_problem=c["jumps"]))
    o.setup_spacetime_finite_elements()
    if c["wp"]:
        o.u1_0.interpolate(lambda X: sum(a * np.cos(ph) * np.sin(i * pi * X[0]) * np.sin(j * pi * X[1]) for i, j, a in modes))
        o.u2_0.interpolate(lambda X: sum(-a * om[i, j] * np.sin(ph) * np.sin(i * pi * X[0]) * np.sin(j * pi * X[1]) for i, j, a in modes))
    vec = linear_solve(o, iterative)
    e = o.measured_errors(vec)
    return np.array([float(e[x]) for x in KEYS])


def check2(c):
    c["jumps"] = c["jumps"] and not c["iterative"]
    q, qs, k, ks = ORD2[c["ord"]]
    a = solve2(c, 2, 4)
    b = solve2(c, 4, 8, c["iterative"])
    p = min(q, k)
    size = (abs(c["a1"]) + 3 * abs(c["a2"]) + 3 * abs(c["a3"])) / 10.0
    judge(a, b, RATE2[p], LEVEL2[p], size, p, f"2D {c['kind']}, orders {ORD2[c['ord']]}, {'well posed' if c['wp'] else 'data assimilation'}")
    return Info(True, [c["kind"], str(ORD2[c["ord"]]), "wp" if c["wp"] else "gcc", "gmres" if c["iterative"] else "direct"])


def cases2():
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["triangle", "quadrilateral"]), "mesh_seed": st.integers(0, 9),
        "ord": st.sampled_from([0, 1, 2, 0, 1, 2, 3]), "a1": st.sampled_from([10, -10, 7, -7, 5, -5]), "a2": st.integers(-1, 1), "a3": st.integers(-1, 1),
        "phase": st.integers(0, 31), "T": st.integers(3, 5), "data": st.sampled_from([4, 3]), "primal": st.sampled_from([-3, -4]),
        "wp": st.booleans(), "iterative": st.booleans(), "jumps": st.booleans(), "dof_seed": st.integers(0, 9)})


def cases():
    return st.fixed_dictionaries({
        "ord": st.integers(0, len(ORD) - 1), "a1": st.integers(-10, 10), "a2": st.integers(-4, 4), "phase": st.integers(0, 31),
        "T": st.integers(3, 6), "data": st.sampled_from([4, 3, 2]), "wp": st.booleans(), "iterative": st.booleans(),
        "jumps": st.booleans(), "dof_seed": st.integers(0, 9)})


PROP = Prop("S13", [
    Sub("rates", cases, check, "every case", quick=104, thorough=2000, shards_quick=8, shards_thorough=8),
    Sub("rates-2d", cases2, check2, "every case", quick=64, thorough=1200, shards_quick=8, shards_thorough=8),
], assumptions=["one dimension, data on both ends of the interval (geometric control) for final times of at least 0.75, or well posed with initial data"])
