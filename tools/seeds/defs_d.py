"""Planted bugs: second batch, across all parts."""
from defs_a import G, GM, P, TI
from defs_b import H, S
from defs_c import D1, D2, D3, DH, M, MH

BUGS = [
    dict(id="g01-right-side", prop="G01", edits=[(G, '''    # Prepare shell preconditioner
    pc = ksp.pc
''', '''    # Prepare shell preconditioner
    ksp.setPCSide(PETSc.PC.Side.RIGHT)
    pc = ksp.pc
''')],
         needs="a preconditioner that scales components very differently and an explicit absolute tolerance",
         breaks="the tolerance is applied to the plain instead of the preconditioned residual",
         demo=GM + '''n = 30
rng = np.random.default_rng(0)
d = 10.0 ** rng.uniform(0, 6, n)
a = np.diag(1 / d) @ (np.eye(n) + 0.5 * rng.standard_normal((n, n)) / np.sqrt(n))
b = rng.standard_normal(n) / d
x, r = get_gmres_solution(Op(a), vec(b), Pre(d), tol=1e-30, reltol=1e-3, maxsteps=500, printrates=False)
z = d * (b - a @ x.array)
need(np.linalg.norm(z) <= 1.01e-3 * np.linalg.norm(d * b), f"preconditioned residual {np.linalg.norm(z) / np.linalg.norm(d * b)}")
'''),
    dict(id="g02-breakdown", prop="G02", edits=[(G, '''    if ksp_reason < 0:
''', '''    if ksp_reason < 0 and ksp_reason != PETSc.KSP.ConvergedReason.DIVERGED_BREAKDOWN:
''')],
         needs="a singular system on which the iteration breaks down", breaks="a vector that solves nothing is returned without an error",
         demo=GM + '''bad = 0
for n in range(2, 7):
    a = np.diag(np.ones(n - 1), 1)  # nilpotent shift: e_n is not in its range
    b = np.zeros(n)
    b[-1] = 1.0
    try:
        x, r = get_gmres_solution(Op(a), vec(b), Pre(), maxsteps=50, printrates=False)
    except PETSc.Error:
        continue
    bad += not np.linalg.norm(b - a @ x.array) <= 1e-6
need(bad == 0, f"{bad} unsolvable systems were reported as solved")
'''),
    dict(id="t01-shared-dict", prop="T01", edits=[(P, '''def get_elmat_time(q, qstar):
''', '''_cache = {}


def get_elmat_time(q, qstar):
    if q not in _cache or _cache[q][0] > qstar:
        _cache[q] = (qstar, _get_elmat_time(q, qstar))
    return _cache[q][1]


def _get_elmat_time(q, qstar):
''')],
         needs="a request for a higher dual order after a lower one for the same primal order, in one process",
         breaks="the matrices of the lower dual order are returned: wrong shape and values",
         demo=TI + '''for q, qs in ((2, 1), (2, 2), (1, 3), (1, 0), (1, 1)):
    e = m.get_elmat_time(q, qs)
    need(np.shape(e["M_time_q_qstar"]) == (qs + 1, q + 1), f"shape for {q}, {qs}: {np.shape(e['M_time_q_qstar'])}")
'''),
    dict(id="s01-facet-size", prop="S01", standin=True, edits=[(S, '''                        * 0.5
                        * (h("+") + h("-"))
                        * inner(
''', '''                        * h("+")
                        * inner(
''')],
         needs="cells of different size next to each other", breaks="the primal stabilisation depends on which cell happens to be numbered first",
         demo=H + '''from dolfinx.mesh import Mesh
ref = []
for flip in (False, True):
    cells = np.array([[0, 1], [1, 2], [2, 3]])
    msh = Mesh(MPI.COMM_SELF, "interval", cells[::-1] if flip else cells, np.array([[0.0], [0.2], [0.7], [1.0]]))
    o = stm.SpaceTime(
        stm.OrderTime(1, 1), stm.OrderSpace(1, 1), N=1, T=1.0, t=0.0, msh=msh, stabilisation_terms=dict(STABS),
        omega=stm.DataDomain(indicator_function=ends, fitted=True), solution=stm.ValueAndDerivative(u, ut))
    o.setup_spacetime_finite_elements()
    a = csr(o.get_spacetime_matrix())
    pts = o.fes_u1_0.tabulate_dof_coordinates()[:, 0]
    x = np.zeros(a.shape[0])
    for d in o.dofmaps_full[0]:
        x[d] = np.abs(pts - 0.2)
    ref.append(x @ (a @ x))
need(abs(ref[0] - ref[1]) < 1e-9 * abs(ref[0]), f"the energy depends on the numbering of the cells: {ref}")
'''),
    dict(id="s05-clamped-time", prop="S05", standin=True, edits=[(S, '''                time_ti = t_n + delta_t * tau_i
                sol_ti = self.solution.v(time_ti, self.x)
''', '''                time_ti = min(t_n + delta_t * tau_i, 1.0)
                sol_ti = self.solution.v(time_ti, self.x)
''')],
         needs="a final time above 1", breaks="the data of later times are replaced by those at time 1",
         demo=H + '''v = lambda t, x: t + 0.0 * x[0]
vt = lambda t, x: 1.0 + 0.0 * x[0]
for T in (1.0, 3.0):
    o = make(T=T, N=3, sol=(v, vt), omega=stm.DataDomain(indicator_function=lambda x: 1.0 + 0 * x[0], fitted=True),
             stabs={"data": 1.0, "dual": 1.0, "primal": 1.0, "primal-jump": 1.0})
    b = np.array(o.get_spacetime_rhs().array)
    total = sum(b[d].sum() for d in o.dofmaps_full[0])  # tested with 1: the integral of t
    need(abs(total - T * T / 2) < 1e-5, f"integral of t over [0, {T}]: {total}")
'''),
    dict(id="s06-jump-field", prop="S06", standin=True, edits=[(S, '''                    l_pre += inner(self.u1_0_pre, self.y2_p[0]) * dx
''', '''                    l_pre += inner(self.u2_0_pre, self.y2_p[0]) * dx
''')],
         needs="forward jumps as part of the problem and the plain preconditioner", breaks="the coupling to the previous slab uses the wrong field",
         demo=H + '''o = with_solvers(make(N=2, jumps=True))
n = o.uh.x.array.size
b, x = np.random.default_rng(0).standard_normal(n), vec(np.zeros(n))
o.pre_time_marching(vec(b), x)
slab, none = csr(o.get_slab_matrix()), csr(o.slab_matrix_no_dg_jumps)
loc = np.zeros(slab.shape[0])
for j in range(4):
    for l in range(2):
        loc[o.dofmaps_pre[j][l]] = x.array[o.dofmaps_full[j][2 + l]]
rows, cols = np.asarray(o.dofmaps_pre[3][0]), np.asarray(o.dofmaps_pre[0][0])
before = x.array[o.dofmaps_full[0][1]]  # displacement at the end of the first slab
want = b[o.dofmaps_full[3][2]] + (slab - none)[rows][:, cols] @ before
need(abs((slab @ loc)[rows] - want).max() < 1e-6 * abs(want).max(), "the slabs are not coupled by the displacement")
'''),
    dict(id="s07-single-precision", prop="S07", standin=True, edits=[(S, '''        return self._space_time.pre_time_marching_improved(vec_in, vec_out)
''', '''        if not hasattr(self, "_work"):
            self._work = vec_in.duplicate()
        self._work.array[:] = vec_in.array.astype("float32")  # half the memory traffic
        return self._space_time.pre_time_marching_improved(self._work, vec_out)
''')],
         needs="a tolerance beyond single precision", breaks="the preconditioned iteration stagnates or reports a residual the solution does not have",
         demo=H + '''o = with_solvers(make(N=2))
p = csr(o.get_spacetime_matrix(precond=True))
b, x = np.random.default_rng(0).standard_normal(p.shape[0]), vec(np.zeros(p.shape[0]))
stm.SpaceTimePETScPreconditionerWrapper(o).apply(None, vec(b), x)
y = vec(np.zeros(len(b)))
o.pre_time_marching(vec(b), y)
need(abs(x.array - y.array).max() < 1e-9 * abs(y.array).max(), "the wrapper gives another result than the preconditioner")
'''),
    dict(id="s08-unit-samples", prop="S08", standin=True, edits=[(S, '''        self.sample_pts_error = np.linspace(0, self.T, 105).tolist()
''', '''        self.sample_pts_error = np.linspace(0, 1.0, 105).tolist()
''')],
         needs="a final time other than 1", breaks="the maximum errors leave out the later times",
         demo=H + '''for T in (1.0, 2.5):
    v = lambda t, x: t * t + 0.0 * x[0]
    o = make(T=T, N=2, sol=(v, lambda t, x: 2 * t + 0.0 * x[0]))
    e = o.measured_errors(vec(np.zeros(o.uh.x.array.size)))  # of the zero function
    need(abs(e["L-infty-L2-error-u"] - T * T) < 1e-9, e)
'''),
    dict(id="s09-lfi-refresh", prop="S09", standin=True, edits=[(S, '''        if not self.SpaceTimeLfi:
            self.setup_rhs()
        return self.SpaceTimeLfi
''', '''        self.setup_rhs()
        return self.SpaceTimeLfi
''')],
         needs="a well-posed problem, a request for the linear form and then a change of the functions that held the initial data",
         breaks="asking for the linear form rebuilds the right-hand side with other initial data",
         demo=H + '''o = make(wp=True)
o.u1_0.interpolate(lambda x: x[0] * (1 - x[0]))
b = np.array(o.get_spacetime_rhs().array)
o.u1_0.x.array[:] = 0.0
o.get_spacetime_lfi()
need(np.allclose(o.get_spacetime_rhs().array, b), "the right-hand side changed")
'''),
    dict(id="s11-default-jumps", prop="S11", standin=True, edits=[(S, '''        self.jumps_in_fw_problem, self.well_posed = parameters
''', '''        if self.otime.qstar > self.otime.q:  # needed for stability
            parameters.jumps_in_fw_problem = True
        self.jumps_in_fw_problem, self.well_posed = parameters
''')],
         needs="an object with dual time order above the primal one and default parameters, then another object with default parameters",
         breaks="the shared default parameters are changed for every later object",
         demo=H + '''def new(q, qs, **k):
    msh = dm.create_unit_interval(MPI.COMM_SELF, 3)
    return stm.SpaceTime(
        stm.OrderTime(q, qs), stm.OrderSpace(1, 1), N=2, T=1.0, t=0.0, msh=msh, stabilisation_terms=dict(STABS),
        omega=stm.DataDomain(indicator_function=ends, fitted=True), solution=stm.ValueAndDerivative(u, ut), **k)


new(0, 1)
need(not new(1, 1).jumps_in_fw_problem, "an object with default parameters has forward jumps")
'''),
    dict(id="s12-repeated-times", prop="S12", standin=True, edits=[(S, '''        eval_t_subdiv = np.linspace(
            0.0,
            1.0,
            num=n_time_subdiv,
            endpoint=False,
        ).tolist()

        ts = []

        int_idx = 0
        time_idx = 0

        fun_val = np.zeros((n_time_subdiv * self.N, n_space))
        dt_fun_val = np.zeros((n_time_subdiv * self.N, n_space))
        err_val''', '''        eval_t_subdiv = np.linspace(
            0.0,
            1.0,
            num=n_time_subdiv,
            endpoint=self.N == 1,
        ).tolist()

        ts = []

        int_idx = 0
        time_idx = 0

        fun_val = np.zeros((n_time_subdiv * self.N, n_space))
        dt_fun_val = np.zeros((n_time_subdiv * self.N, n_space))
        err_val''')],
         needs="an error plot of a problem with a single slab", breaks="the times of the plot do not have the requested spacing",
         demo=H + '''seen = []
import matplotlib
matplotlib.use("Agg")
pc, cb = stm.plt.pcolormesh, stm.plt.colorbar
stm.plt.pcolormesh = lambda xs, ts, *a, **k: (seen.append(list(ts)), pc(xs, ts, *a, **k))[1]
sol = (lambda t, x: np.cos(t) * x[0], lambda t, x: -np.sin(t) * x[0])
for n in (3, 1):
    o = make(N=n, sol=sol)
    o.plot_error(vec(rnd(o)), n_space=5, n_time_subdiv=4)
    need(np.allclose(seen[-1], np.arange(4 * n) / (4 * n)), f"time axis {seen[-1]}")
'''),
    dict(id="s13-small-entries", prop="S13", standin=True, edits=[(S, '''                    if abs(elmat_time["M_time_q_qstar"][k, j]) > 1e-10:
                        a -= (
                            delta_t
                            * elmat_time["M_time_q_qstar"][k, j]
                            * inner(n_facet, grad(u1[int_idx_q + j]))
''', '''                    if elmat_time["M_time_q_qstar"][k, j] > 1e-10:
                        a -= (
                            delta_t
                            * elmat_time["M_time_q_qstar"][k, j]
                            * inner(n_facet, grad(u1[int_idx_q + j]))
'''), (S, '''                    if abs(elmat_time["M_time_q_qstar"][k, j]) > 1e-10:
                        a -= (
                            delta_t
                            * elmat_time["M_time_q_qstar"][k, j]
                            * inner(n_facet, grad(w1[int_idx_q + j]))
''', '''                    if elmat_time["M_time_q_qstar"][k, j] > 1e-10:
                        a -= (
                            delta_t
                            * elmat_time["M_time_q_qstar"][k, j]
                            * inner(n_facet, grad(w1[int_idx_q + j]))
''')],
         needs="time orders above one, whose time mass matrices have negative entries",
         breaks="boundary terms are dropped on both sides of the saddle point system: it stays symmetric, but is not consistent",
         demo=H + '''from scipy.sparse.linalg import spsolve
err = []
for n in (4, 8, 16):
    o = make(q=2, qs=2, k=2, ks=1, N=n // 2, nx=n, wp=True, stabs={"data": 1.0, "dual": 1.0, "primal": 1e-2, "primal-jump": 10.0})
    o.u1_0.interpolate(lambda x: np.sin(np.pi * x[0]))
    x = spsolve(csr(o.get_spacetime_matrix()).tocsc(), np.array(o.get_spacetime_rhs().array))
    err.append(o.measured_errors(vec(x))["L-infty-L2-error-u"])
need(err[2] * 8 < err[1] and err[1] * 4 < err[0], f"errors {err}")
'''),
    dict(id="m01-eta-range", prop="M01", standin=True, edits=[(M, '''        if eta < 1.5:
''', '''        if eta <= 1.25:
''')],
         needs="an interface height between 1.25 and 1.5", breaks="a strip at the top of the square is missing",
         demo=MH + '''for eta in (1.25, 1.4):
    ms = m.get_mesh_inclusion_square(h_init=2.0, eta=eta)
    a = area(ms[0] if isinstance(ms, list) else ms).sum()
    need(abs(a - 9) < 1e-9, f"the cells cover an area of {a} for eta = {eta}")
done()
'''),
    dict(id="m03-linear-scale", prop="M03", standin=True, edits=[(M, '''init_h_scale / (2**j)''', '''init_h_scale / (j + 1)''')],
         needs="three or more meshes of the convex family", breaks="the sizes go like 1, 1/2, 1/3 instead of being halved every time",
         demo=MH + '''import gmsh
seen = []
keepf = gmsh.option.setNumber
gmsh.option.setNumber = lambda n, v: (seen.append(v) if n == "Mesh.MeshSizeFactor" else None, keepf(n, v))[1]
m.get_mesh_convex(3, init_h_scale=2.0)
need(np.allclose(seen, [2.0, 1.0, 0.5]), seen)
done()
'''),
    dict(id="d03-phase", prop="D03", standin=True, edits=[(D3, '''        self.solver.set_phase(33)
''', '''        self.solver.set_phase(331)
''')],
         needs="the direct solver library and a matrix whose triangular factor differs from the identity",
         breaks="a solve does the forward substitution only",
         demo=DH + '''import warnings
warnings.simplefilter("ignore")
import dxss.solve_3d as d


class Fake:
    """Phases as documented for PARDISO: 33 solves, 331 is its forward substitution, 12 analyses and factorises."""

    def _check_A(self, a):
        pass

    def _check_b(self, a, b):
        return b

    def set_phase(self, p):
        self.phase = p

    def _call_pardiso(self, a, b):
        low = np.linalg.cholesky(a)
        return {33: np.linalg.solve, 331: lambda a, b: np.linalg.solve(low, b)}[self.phase](a, b)


a = np.array([[2.0, 1.0], [1.0, 4.0]])
x = types.SimpleNamespace(array=np.zeros(2))
d.PySolver(a, Fake()).solve(types.SimpleNamespace(array=np.array([3.0, 5.0])), x)
need(np.allclose(x.array, [1, 1]), x.array)
'''),
    dict(id="d02-first-slab", prop="D02", standin=True, edits=[(D1, '''            get_lu_solver(ST.msh, ST.get_slab_matrix_first_slab()),
''', '''            get_lu_solver(ST.msh, ST.get_slab_matrix()),
''')],
         needs="the back end that builds its first-slab solver from the PETSc factorisation, and a problem that is not well posed",
         breaks="the preconditioner's first slab is solved with the wrong matrix",
         demo=DH + '''import dxss.solve_1d as d

used = []


class Tag:
    def __init__(self, n):
        self.n = n

    def createVecs(self):
        return Any(), Any()


for n in ("get_slab_matrix", "get_slab_matrix_first_slab", "get_spacetime_matrix"):
    setattr(d.ST, n, lambda *a, _n=n, **k: Tag(_n))
d.get_lu_solver = lambda msh, mat: used.append(mat.n)
d.ST.set_solver_first_slab = d.ST.set_solver_slab = lambda s: None
d.SOLVER_TYPE = "petsc-LU"
d.PYPARDISO_AVAILABLE = False
try:
    d.solve_problem(measure_errors=False)
except Exception as e:
    print("stopped:", e)
need("get_slab_matrix_first_slab" in used, f"solvers were built for {used}")
'''),
]
