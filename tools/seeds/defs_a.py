"""Planted bugs: gmres and time integration."""
GM = '''import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
import numpy as np
import petsc4py
petsc4py.init([sys.argv[0]])
from petsc4py import PETSc
from dxss.gmres import get_gmres_solution


class Op:
    def __init__(self, a):
        self.a = np.asarray(a, float)

    def mult(self, mat, x, y):
        y.array = self.a @ x.array


class Pre:
    def __init__(self, d=None):
        self.d = d

    def apply(self, pc, x, y):
        y.array = x.array * (1.0 if self.d is None else self.d)


def vec(a):
    v = PETSc.Vec().createSeq(len(a))
    v.array = a
    return v


def need(ok, msg):
    sys.stdout.flush()
    if not ok:
        sys.exit(f"FAILED: {msg}")


'''
TI = '''import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
import numpy as np
from dxss import precomp_time_int as m


def need(ok, msg):
    if not ok:
        sys.exit(f"FAILED: {msg}")


'''
G = "src/dxss/gmres.py"
P = "src/dxss/precomp_time_int.py"
BUGS = [
    dict(id="g01-zero-reltol", prop="G01", edits=[(G, '''    if reltol is None:
        reltol = 1e-7
''', '''    reltol = reltol or 1e-7
''')],
         needs="an explicit relative tolerance of zero (only the absolute one is to count) with an absolute tolerance below 1e-7 |b|",
         breaks="the returned solution misses the requested tolerance by orders of magnitude, silently",
         demo=GM + '''rng = np.random.default_rng(3)
a = np.diag(np.linspace(1, 50, 40)) + 0.1 * rng.standard_normal((40, 40))
b = vec(rng.standard_normal(40))
x, r = get_gmres_solution(A=Op(a), b=b, pre=Pre(), maxsteps=100, tol=1e-10, reltol=0.0, printrates=False)
need(np.linalg.norm(b.array - a @ x.array) < 2e-10, "residual above the requested absolute tolerance")
'''),
    dict(id="g02-only-its", prop="G02", edits=[(G, "    if ksp_reason < 0:\n", "    if ksp_reason == PETSc.KSP.ConvergedReason.DIVERGED_MAX_IT:\n")],
         needs="an iteration that ends for another reason than the step limit, such as an operator producing NaN",
         breaks="a diverged solve returns a meaningless vector instead of raising",
         demo=GM + '''class Bad(Op):
    n = 0

    def mult(self, mat, x, y):
        super().mult(mat, x, y)
        self.n += 1
        if self.n == 3:
            y.array[1] = np.nan


b = vec(np.ones(6))
try:
    x, r = get_gmres_solution(A=Bad(np.diag(np.arange(1.0, 7))), b=b, pre=Pre(), maxsteps=50, tol=1e-9, printrates=False)
except PETSc.Error:
    sys.exit(0)
need(False, f"no error, x = {x.array}")
'''),
    dict(id="g03-sticky-restart", prop="G03", edits=[(G, '''    if restart is None:
        restart = 1000  # Currently set to a high number for faster convergence
    ksp.setGMRESRestart(restart)  # set number of iterations until restart
''', '''    ksp.setGMRESRestart(1000)  # Currently set to a high number for faster convergence
'''), (G, '''    petsc_opts.setValue("ksp_gmres_preallocate", True)  # efficiency vs memory
''', '''    petsc_opts.setValue("ksp_gmres_preallocate", True)  # efficiency vs memory
    if restart is not None:
        petsc_opts.setValue("ksp_gmres_restart", restart)
''')],
         needs="a solve with an explicit restart followed by one without, for a system that stagnates under restarts",
         breaks="the restart length of an earlier call governs later calls that did not ask for it",
         demo=GM + '''n = 12
shift = np.roll(np.eye(n), 1, axis=0)  # restarted GMRES makes no progress on the cyclic shift
b = np.zeros(n)
b[0] = 1.0
get_gmres_solution(A=Op(np.diag(np.arange(1.0, n + 1))), b=vec(b), pre=Pre(), maxsteps=200, tol=1e-9, restart=3, printrates=False)
try:
    x, r = get_gmres_solution(A=Op(shift), b=vec(b), pre=Pre(), maxsteps=40, tol=1e-9, printrates=False)
except PETSc.Error:
    need(False, "the second solve failed although 12 steps suffice")
need(np.linalg.norm(shift @ x.array - b) < 1e-8, "wrong solution")
'''),
    dict(id="g04-options-first", prop="G04", edits=[(G, '''    ksp.setTolerances(rtol=reltol, atol=tol, max_it=maxsteps)

''', ''), (G, '''    ksp.setFromOptions()  # allow the user to set command-line options at runtime for tuning the solver
''', '''    ksp.setFromOptions()  # allow the user to set command-line options at runtime for tuning the solver
    ksp.setTolerances(rtol=reltol, atol=tol, max_it=maxsteps)
''')],
         needs="a tolerance or step limit set as a PETSc run-time option",
         breaks="the user's run-time options are overridden by the arguments of the call",
         demo=GM + '''PETSc.Options().setValue("ksp_max_it", 3)
b = vec(np.ones(20))
try:
    get_gmres_solution(A=Op(np.diag(np.arange(1.0, 21))), b=b, pre=Pre(), maxsteps=100, tol=1e-10, printrates=False)
except PETSc.Error:
    sys.exit(0)
need(False, "20 steps were made although the run-time options allow 3")
'''),
    dict(id="g05-history-guess", prop="G01", edits=[(G, '''    x = A_shell.createVecRight()  # sol vec conforming to matrix partitioning
''', '''    x = A_shell.createVecRight()  # sol vec conforming to matrix partitioning
    if b.norm() < tol:  # nothing to do
        return (x, b.copy())
''')],
         needs="a right-hand side smaller than the tolerance whose preconditioned norm is larger",
         breaks="the zero vector is returned although the preconditioned residual exceeds the tolerance",
         demo=GM + '''a = np.diag(np.full(5, 1e-4))
b = vec(np.full(5, 1e-8))
x, r = get_gmres_solution(A=Op(a), b=b, pre=Pre(np.full(5, 1e4)), maxsteps=20, tol=1e-6, printrates=False)
res = 1e4 * np.linalg.norm(b.array - a @ x.array)
need(res <= 1.01e-6, f"preconditioned residual {res}")
'''),
    dict(id="t01-nested-basis", prop="T01", edits=[(P, '''    m_time_qstar_qstar = np.zeros((qstar + 1, qstar + 1))
    for i in range(qstar + 1):
        for j in range(qstar + 1):
            m_time_qstar_qstar[i, j] = integrate(chis[j] * chis[i], (x, 0, 1))
''', '''    m_time_qstar_qstar = m_time_q_q[: qstar + 1, : qstar + 1].copy()
    if qstar > q:
        m_time_qstar_qstar = np.zeros((qstar + 1, qstar + 1))
        for i in range(qstar + 1):
            for j in range(qstar + 1):
                m_time_qstar_qstar[i, j] = integrate(chis[j] * chis[i], (x, 0, 1))
''')],
         needs="dual order in time below the primal one", breaks="the dual mass matrix in time is cut out of the primal one although the bases are not nested",
         demo=TI + '''M = m.get_elmat_time(2, 1)["M_time_qstar_qstar"]
need(np.allclose(M, np.array([[2, 1], [1, 2]]) / 6), M)
'''),
    dict(id="t02-cubic-derivative", prop="T02", edits=[(P, '''            * ((t - 1) * (t - 1 / 3) + t * (t - 1 / 3) + t * (t - 1)),
''', '''            * ((t - 1) * (t - 1 / 3) + t * (t - 1 / 3) + t * (t - 2 / 3)),
''')],
         needs="third order in time",
         breaks="one derivative of the cubic time basis is wrong",
         demo=TI + '''p, d = m.basis_in_time[3]
for t in (0.1, 0.4, 0.9):
    for f, g in zip(p, d):
        need(abs((f(t + 1e-5) - f(t - 1e-5)) / 2e-5 - g(t)) < 1e-6, t)
'''),
    dict(id="t03-cached-weights", prop="T03", edits=[(P, '''    def t_weights(self, delta_t):
        if self.name in ("Gauss-Radau", "Gauss"):
            return [0.5 * delta_t * w for w in self.weights]
''', '''    def t_weights(self, delta_t):
        if self.name in ("Gauss-Radau", "Gauss"):
            if not hasattr(self, "_t_weights"):
                self._t_weights = [0.5 * delta_t * w for w in self.weights]
            return self._t_weights
''')],
         needs="a rule used for intervals of different lengths",
         breaks="weights of the first interval length are returned for every later one",
         demo=TI + '''r = m.QuadRule("Gauss", 2)
need(abs(sum(r.t_weights(1.0)) - 1) < 1e-12, "1")
need(abs(sum(r.t_weights(0.5)) - 0.5) < 1e-12, "0.5")
'''),
    dict(id="t04-radau-nodes", prop="T03", edits=[(P, '''                [2 / 9, (16 + sqrt(6)) / 18, (16 - sqrt(6)) / 18],
''', '''                [2 / 9, (16 - sqrt(6)) / 18, (16 + sqrt(6)) / 18],
''')],
         needs="the three-point Gauss-Radau rule and a polynomial that is not symmetric",
         breaks="the weights belong to the right Radau rule; still exact for constants only",
         demo=TI + '''r = m.QuadRule("Gauss-Radau", 3)
q = lambda f: float(sum(w * f(p) for p, w in zip(r.current_pts(0, 1), r.t_weights(1))))
need(abs(q(lambda t: 1.0) - 1) < 1e-9, "constants")
need(abs(q(lambda t: t**2) - 1 / 3) < 1e-9, "quadratics")
'''),
    dict(id="t05-lifting-array", prop="T02", edits=[(P, '''    for j in range(len(pts_raudau_right)):
        fac_j = 1 / (-1 - pts_raudau_right[j])
''', '''    for j in range(len(pts_raudau_right)):
        fac_j = 1 / (1 - 2 * pts_raudau_right[j])
''')],
         needs="the derivative of the jump lifting", breaks="d_theta_ref is not the derivative of theta_ref",
         demo=TI + '''for t in (-1.0, -0.3, 0.7):
    need(abs((m.theta_ref(t + 1e-5) - m.theta_ref(t - 1e-5)) / 2e-5 - m.d_theta_ref(t)) < 1e-6, t)
'''),
]
