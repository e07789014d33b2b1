"""S07: the Krylov solve through the PETSc wrappers delivers the solution of the assembled system."""
import numpy as np
from hypothesis import strategies as st

from vh import gm, poly, stx
from vh.core import Info, Prop, Sub, require
from p_s01 import labels
from p_s06 import prepare


def check(c):
    from petsc4py import PETSc

    from dxss.gmres import get_gmres_solution
    from dxss.space_time import SpaceTimePETScMatrixWrapper, SpaceTimePETScPreconditionerWrapper, ValueAndDerivative

    d = stx.KINDS[c["mesh"]["kind"]]
    u = poly.general(d, c["u"], 3, 3)
    ut = u.dt()
    B = stx.build(c, solution=ValueAndDerivative(lambda t, x: u(t, x), lambda t, x: ut(t, x)))
    s = B.st
    if c["wp"]:
        s.u1_0.interpolate(lambda X: u(0.0, X) + np.zeros(X.shape[1]))
        s.u2_0.interpolate(lambda X: ut(0.0, X) + np.zeros(X.shape[1]))
    prepare(B)
    b = s.get_spacetime_rhs()
    bb = np.array(b.array)
    F = stx.form(B)
    p = stx.perm(B)
    A, P = F.total().toarray(), F.total(precond=True).toarray()
    br = bb[p]
    Pi = np.linalg.inv(P)
    M, c0 = Pi @ A, Pi @ br
    rho0 = float(np.linalg.norm(c0))
    reltol = c["reltol"]
    raised = None
    with gm.CaptureStdout():
        try:
            x, r = get_gmres_solution(SpaceTimePETScMatrixWrapper(s), b, SpaceTimePETScPreconditionerWrapper(s),
                                      maxsteps=c["maxsteps"], tol=0.0, reltol=reltol, printrates=False)
        except PETSc.Error as e:
            raised = e
    require(np.array_equal(b.array, bb), "the right-hand side was modified by the solve")
    target = reltol * rho0
    sM = np.linalg.svd(M, compute_uv=False)
    condP = float(np.linalg.cond(P))
    floor = (1e-15 * condP + 1e-15 * sM[0] / sM[-1]) * rho0
    sound = target > 1e3 * floor and rho0 > 0
    if raised is not None:
        if sound:
            rho = gm.reference(M, c0, 1000, c["maxsteps"])
            require(min(rho) > 0.3 * target, lambda: f"the solve failed although {int(np.argmin(rho))} of {c['maxsteps']} steps reach "
                    f"{min(rho) / rho0:.2e} of the initial residual (requested {reltol:.0e})")
        return Info(False, labels(c) + ["not-converged"])
    xr, rr = np.array(x.array)[p], np.array(r.array)[p]
    true = br - A @ xr
    sc = (np.abs(A) @ np.abs(xr) + np.abs(br)).max()
    require(np.abs(rr - true).max() <= 1e-10 * sc, lambda: "the returned residual is not that of the assembled system: off by "
            f"{np.abs(rr - true).max():.3e} (scale {sc:.3e})")
    if not sound:
        return Info(False, labels(c) + ["ill-conditioned"])
    pres = float(np.linalg.norm(Pi @ true))
    require(pres <= 1.01 * target + 1e3 * floor, lambda: f"the preconditioned residual of the solution of the assembled system is {pres / rho0:.3e} of the "
            f"initial one, requested {reltol:.0e}")
    want = np.linalg.solve(A, br)
    bound = 1.01 * target / sM[-1] + 1e3 * floor / sM[-1]
    e = float(np.linalg.norm(xr - want))
    require(e <= bound, lambda: f"the Krylov solution differs from the direct solution by {e:.3e} > {bound:.3e} (norm {np.linalg.norm(want):.3e})")
    return Info(c["N"] > 1 and bound < 0.1 * np.linalg.norm(want), labels(c) + ["solved"] + (["sharp"] if bound < 1e-3 * np.linalg.norm(want) else []))


@st.composite
def cases(draw):
    c = draw(stx.cfgs(jumps=False, budget=330, qmin=draw(st.sampled_from([1, 1, 1, 0])), minN=draw(st.sampled_from([2, 2, 2, 1]))))
    if draw(st.integers(0, 3)):  # keep most systems solvable to the requested accuracy
        c["g"] = {k: min(1.0, max(v, 1e-2)) for k, v in c["g"].items()}
        if not c["ind"]["p"]:
            c["ind"]["p"] = 1.0
    c["u"] = draw(poly.coefs())
    c["reltol"] = draw(st.sampled_from([1e-5, 1e-7, 1e-9, 1e-6, 1e-8, 1e-10]))
    c["maxsteps"] = draw(st.sampled_from([100, 400, 30, 400]))
    return c


PROP = Prop("S07", [
    Sub("krylov-vs-direct", cases, check, "several slabs, solved, and the requested tolerance bounds the solution error by 10 per cent",
        quick=400, thorough=4800, shards_quick=8, shards_thorough=8,
        always=stx.grid(9, lambda r: {"u": [[3, [1, 0, 0], 1.0], [1, [0, 2, 1], -2.0], [2, [2, 1, 0], 0.5]], "reltol": r.choice([1e-7, 1e-9]), "maxsteps": 400},
                        jumps=False, budget=330, minN=2, many=((33, True),))),
], assumptions=["stand-in for DOLFINx (lib/standin)", "slab systems are solved by dense LU"])
