"""D02: the drivers' back ends give the same discrete solution, whatever the order of solves."""
import numpy as np
import scipy.sparse.linalg as spl
from hypothesis import strategies as st

from vh import drv, stx
from vh.core import Info, Prop, Sub, close, require

CONF = {
    1: [{"N": 1}, {"N": 2}, {"N": 3}, {"N": 2, "ORDER": 2}, {"N": 3, "ORDER": 2}],
    2: [{"REF_LVL": 0, "ORDER": 1}, {"REF_LVL": 1, "ORDER": 1}, {"REF_LVL": 0, "ORDER": 2}],
    3: [{"REF_LVL": 0}, {"REF_LVL": 0, "GCC": True}, {"REF_LVL": 1}, {"REF_LVL": 1, "GCC": True}],
}
_SYS = {}


def system(dim, vals):
    """Matrix, preconditioner factorisation, right-hand side of a separate copy of the driver's problem."""
    key = (dim, tuple(sorted(vals.items())))
    if key not in _SYS:
        m = drv.load(dim, vals)
        o = m._rec.objects[0]
        b = np.array(o.get_spacetime_rhs().array)
        P = spl.splu(stx.csr(o.get_spacetime_matrix(precond=True)).tocsc())
        A = stx.csr(o.get_spacetime_matrix(precond=False))
        lu = spl.splu(A.tocsc())
        x = lu.solve(b)
        for _ in range(3):
            x = x + lu.solve(b - A @ x)
        floor = np.linalg.norm(P.solve(b - A @ x))
        _SYS[key] = (A, P, b, x, floor, np.linalg.norm(P.solve(b)))
    return _SYS[key]


def check(c):
    dim = c["dim"]
    vals = CONF[dim][c["conf"] % len(CONF[dim])]
    A, P, b, x, floor, nb = system(dim, vals)
    fake = drv.fake_pypardiso() if c["pardiso"] else None
    m = drv.load(dim, vals, fake)
    from dolfinx import _engine as E

    E.config.xdmf_log.clear()
    rec = m._rec
    auto = getattr(m, "SOLVER_TYPE", None)
    for i, (backend, measure) in enumerate(c["solves"]):
        name = {0: "default", 1: "petsc-LU", 2: "direct", 3: "pypardiso"}[backend]
        if name == "pypardiso" and not c["pardiso"]:
            name = "petsc-LU"
        if name == "default":
            if auto is not None:
                m.SOLVER_TYPE = auto
        else:
            m.SOLVER_TYPE = name
        nmeas, nsolve = len(rec.measured), sum(p.solves for p in drv.FakePardiso.made)
        before = np.array(m.b_rhs.array) if hasattr(m, "b_rhs") else None
        m.solve_problem(bool(measure)) if c["positional"] else m.solve_problem(measure_errors=bool(measure))
        what = f"driver {dim}d {vals}, solve {i} with back end {name}" + (" (pypardiso available)" if c["pardiso"] else "")
        if before is not None:
            require(np.array_equal(before, m.b_rhs.array), f"{what}: changed the right-hand side")
        used = sum(p.solves for p in drv.FakePardiso.made) - nsolve
        if c["pardiso"] and name in ("default", "pypardiso"):
            require(used > 0, f"{what}: the direct solver library was not used")
        else:
            require(used == 0, f"{what}: used the direct solver library")
        if not measure:
            require(len(rec.measured) == nmeas, f"{what}: measured errors without being asked")
            continue
        require(len(rec.measured) == nmeas + 1, f"{what}: {len(rec.measured) - nmeas} error measurements")
        u, after, res = rec.measured[-1]
        require(u.shape == x.shape and bool(np.all(np.isfinite(u))), f"{what}: unusable solution vector")
        require(np.array_equal(u, after), f"{what}: measuring changed the solution")
        z = np.linalg.norm(P.solve(b - A @ u))
        tol = (2e-9 if name == "direct" else 1.2e-7) * nb + 100 * floor + 2e-12
        require(z <= tol, f"{what}: preconditioned residual {z:.3e} of the measured vector exceeds {tol:.3e}")
        require(isinstance(res, dict) and all(np.isfinite(float(v)) and float(v) >= 0 for v in res.values()),
                f"{what}: errors {res}")
        e = type(rec.objects[0]).__mro__[1].measured_errors(system_obj(dim, vals), stx.vec(u))
        for k, v in e.items():
            close(float(res[k]), float(v), 1e-8, f"{what}: {k}", scale=max(abs(float(v)), 1e-6))
        if dim == 3:
            require(len(rec.written) >= 1 and np.array_equal(rec.written[-1][0], u), f"{what}: output files not written for the solution")
    return Info(any(s[1] for s in c["solves"]), [f"{dim}d", "pardiso" if c["pardiso"] else "no pardiso", f"solves={len(c['solves'])}"])


_OBJ = {}


def system_obj(dim, vals):
    key = (dim, tuple(sorted(vals.items())))
    if key not in _OBJ:
        _OBJ[key] = drv.load(dim, vals)
    return _OBJ[key]._rec.objects[0]


def cases():
    return st.fixed_dictionaries({
        "dim": st.integers(1, 3), "conf": st.integers(0, 4), "pardiso": st.booleans(), "positional": st.booleans(),
        "solves": st.lists(st.tuples(st.integers(0, 3), st.sampled_from([True, True, False])), min_size=1, max_size=4)})


PROP = Prop("D02", [
    Sub("backends", cases, check, "at least one solve is measured", quick=48, thorough=600, shards_quick=8, shards_thorough=8,
        always=[{"dim": d, "conf": k, "pardiso": p, "positional": False, "solves": [[0, True], [2, True], [1, True]]}
                for d, k in ((1, 1), (2, 1), (3, 2), (3, 3)) for p in (False, True)]),
], assumptions=["constants N, ORDER, REF_LVL, GCC of the drivers are reduced by importing copies with other values",
                "pypardiso is a substitute with the same phase-based interface (scipy SuperLU inside)"])
