"""S04: exact solutions of the wave equation in the discrete space satisfy the discrete system."""
import numpy as np
from hypothesis import strategies as st

from vh import poly, stx, tm
from vh.core import Info, Prop, Sub, require
from p_s01 import labels
from p_s03 import describe


def interpolant(B, u, ut):
    """Reference-numbered vector of (u, u_t, 0, 0)."""
    c, L = B.c, B.L
    x = np.zeros(L.n)
    dt = c["T"] / c["N"]
    nodes = [i / c["q"] for i in range(c["q"] + 1)] if c["q"] else [0.5]
    pts = B.S.nodes(c["k"])
    for n in range(c["N"]):
        for i, tau in enumerate(nodes):
            x[L.idx(0, n, i)] = u.at((n + tau) * dt, pts)
            x[L.idx(1, n, i)] = ut.at((n + tau) * dt, pts)
    return x


def initial_data(B, u, ut):
    """Hand the initial data to the solver the way a user does: nodal values of the u1_0/u2_0 functions."""
    s = B.st
    d = B.S.d
    s.u1_0.interpolate(lambda X: u(0.0, X) + np.zeros(X.shape[1]))
    s.u2_0.interpolate(lambda X: ut(0.0, X) + np.zeros(X.shape[1]))
    return d


def setup(c):
    from dxss.space_time import ValueAndDerivative

    d = stx.KINDS[c["mesh"]["kind"]]
    u = poly.wave(d, c["wave"], min(c["q"], c["k"]))
    ut = u.dt()
    B = stx.build(c, solution=ValueAndDerivative(lambda t, x: u(t, x), lambda t, x: ut(t, x)))
    if c["wp"]:
        initial_data(B, u, ut)
    return B, u, ut


def check(c):
    B, u, ut = setup(c)
    s = B.st
    if c["order"] == 0:
        A, b = stx.csr(s.get_spacetime_matrix()), s.get_spacetime_rhs()
    elif c["order"] == 1:
        b = s.get_spacetime_rhs()
        A = stx.csr(s.get_spacetime_matrix())
    else:
        s.prepare_precondition_gmres()
        A, b = stx.csr(s.get_spacetime_matrix()), s.get_spacetime_rhs()
    p = stx.perm(B)
    x = np.zeros(B.L.n)
    xr = interpolant(B, u, ut)
    x[p] = xr
    res = np.array(b.array) - A @ x
    rr = res[p]
    # the weakly imposed boundary condition is the only thing a non-vanishing boundary value violates
    dt = c["T"] / c["N"]
    Mq = tm.matrices(c["q"], c["qs"])["M_time_q_q"]
    Bm = B.S.bmass(c["k"], True) * (5.0 * c["k"] ** 2)
    want = np.zeros(B.L.n)
    for n in range(c["N"]):
        U = np.stack([xr[B.L.idx(0, n, i)] for i in range(c["q"] + 1)])
        W = -c["g"]["primal"] * dt * Mq @ (Bm @ U.T).T
        for i in range(c["q"] + 1):
            want[B.L.idx(0, n, i)] = W[i]
    # scale row by row: sum |A| |x| + |b|; the quadrature in time of the data term carries six digits
    row = (abs(A) @ np.abs(x))[p]
    data = np.zeros(B.L.n)
    data[: B.L.off[1]] = 3e-5 * (np.abs(np.array(b.array)[p][: B.L.off[1]]).max() + 1e-300)
    tol = 1e-10 * row + 1e-13 * row.max() + data
    d = np.abs(rr - want)
    i = int(np.argmax(d / tol))
    require(np.isfinite(rr).all() and d[i] <= tol[i],
            lambda: f"an exact polynomial solution leaves the residual {rr[i]:.6e} instead of {want[i]:.6e} in "
                    f"{describe(B, int(p[i]))} (row scale {row[i]:.3e})")
    return Info(c["N"] > 1 and u.deg_t() > 0 and u.deg_x() > 0, labels(c) + [f"degree{max(u.deg_t(), u.deg_x())}"])


@st.composite
def cases(draw):
    c = draw(stx.cfgs(qmin=1))
    c["wave"] = draw(poly.waves())
    c["order"] = draw(st.integers(0, 2))
    return c


PROP = Prop("S04", [
    Sub("exact-solution", cases, check, "several slabs, solution varying in time and space",
        quick=288, thorough=4000, shards_quick=8, shards_thorough=8,
        always=stx.grid(6, lambda r: {"wave": [[r.randrange(5), [1.0, -1.0, 0.5, 2.0]]], "order": r.randrange(3)}, qmin=1)),
], assumptions=["stand-in for DOLFINx (lib/standin)", "time quadrature of the data is tabulated to six digits"])
