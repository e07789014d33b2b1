"""S05: the right-hand side is the measured data tested on the data domain (plus initial data)."""
import numpy as np
from hypothesis import strategies as st

from vh import poly, stx, tm
from vh.core import Info, Prop, Sub, require
from p_s01 import labels
from p_s03 import describe


def moments(q, i, t0, dt):
    """int_0^1 phi_k(s) (t0 + dt s)^i ds."""
    from math import comb

    L = tm.lagrange(q)
    out = np.zeros(q + 1)
    for k, p in enumerate(L):
        for j in range(i + 1):
            mono = [0] * j + [1]
            out[k] += comb(i, j) * t0 ** (i - j) * dt**j * float(tm.pint(tm.pmul(p, [tm.Fr(v) for v in mono])))
    return out


def check(c):
    from dolfinx import fem

    import ufl
    from dxss.space_time import DataDomain, ValueAndDerivative

    d = stx.KINDS[c["mesh"]["kind"]]
    u = poly.general(d, c["sol"], min(3, 6 - c["q"]), min(c["k"] + 2, 3))
    ut = u.dt()
    sol = ValueAndDerivative(lambda t, x: u(t, x), lambda t, x: ut(t, x))
    omega, mesh = None, None
    if c["halfspace"]:
        # a UFL conditional aligned with the mesh, as the drivers use for unfitted data
        c["mesh"]["jitter"] = 0.0
        mesh = stx.build_mesh(c["mesh"])
        n0 = c["mesh"]["n"][0]
        cut = c["mesh"]["lo"] + c["mesh"]["len"][0] * (c["cut"] % (n0 + 1)) / n0
        xx = ufl.SpatialCoordinate(mesh)
        omega = DataDomain(indicator_function=ufl.conditional(xx[0] <= cut, 1, 0), fitted=False)
    B = stx.build(c, solution=sol, mesh=mesh, omega=omega)
    if c["halfspace"]:
        B.val = (B.S.midpoints()[:, 0] <= cut).astype(float)
    s = B.st
    rng = np.random.default_rng(c["vseed"])
    i1, i2 = rng.standard_normal(B.L.ns[0]), rng.standard_normal(B.L.ns[0])
    kind = c.get("init", 0)
    if kind in (1, 3):  # displacement at rest
        i1 = 0.0 * i1 + (1.0 if kind == 3 else 0.0)
    if kind in (2, 3):  # no velocity; constant displacement
        i2 = 0.0 * i2
    if kind == 4:
        i1, i2 = 1e-9 * i1, 1e9 * i2
    s.u1_0.x.array[:], s.u2_0.x.array[:] = i1, i2  # without effect unless the problem is well posed
    b = np.array(s.get_spacetime_rhs().array)
    require(b.shape == (B.L.n,), "right-hand side has the wrong length")
    got = b[stx.perm(B)]
    dt, q, k = c["T"] / c["N"], c["q"], c["k"]
    want = np.zeros(B.L.n)
    scale = np.zeros(B.L.n)
    sl = u.slices()
    deg = k + 3
    loads = {i: B.S.load(k, lambda p, v=v: v.at(0.0, p), deg + (d if B.S.box else 0), B.val) for i, v in sl.items()}
    for n in range(c["N"]):
        for i, ld in loads.items():
            m = moments(q, i, n * dt, dt)
            for a in range(q + 1):
                want[B.L.idx(0, n, a)] += c["g"]["data"] * dt * m[a] * ld
                scale[B.L.idx(0, n, a)] += c["g"]["data"] * dt * max(np.abs(m).max(), 1e-3 * (c["T"]) ** i) * np.abs(ld).max()
    tol = 1e-5 * scale
    if c["wp"]:
        pj = c["g"]["primal-jump"]
        Mk, Kk = B.S.cellmat(k, k, 0, 0), B.S.cellmat(k, k, 1, 1)
        r1 = pj / dt * (Mk @ i1) + pj * dt * (Kk @ i1)
        r2 = pj / dt * (Mk @ i2)
        want[B.L.idx(0, 0, 0)] += r1
        want[B.L.idx(1, 0, 0)] += r2
        tol[B.L.idx(0, 0, 0)] += 1e-10 * max(np.abs(r1).max(), pj / dt * np.abs(Mk).max() * np.abs(i1).max())
        tol[B.L.idx(1, 0, 0)] += 1e-10 * np.abs(r2).max()
    tol = tol + 1e-15
    e = np.abs(got - want)
    i = int(np.argmax(e / tol))
    require(np.isfinite(got).all() and e[i] <= tol[i],
            lambda: f"right-hand side entry {got[i]:.8g}, expected {want[i]:.8g} in {describe(B, int(stx.perm(B)[i]))} "
                    f"(tolerance {tol[i]:.2e})")
    nonzero = c["g"]["data"] > 0 and B.val.any() and not B.val.all()
    return Info(c["N"] > 1 and bool(nonzero), labels(c) + ["unfitted" if c["halfspace"] else "cellwise"])


@st.composite
def cases(draw):
    c = draw(stx.cfgs())
    c["sol"] = draw(poly.coefs())
    c["vseed"] = draw(st.integers(0, 999))
    c["halfspace"] = draw(st.sampled_from([False, False, True]))
    c["cut"] = draw(st.integers(0, 5))
    c["init"] = draw(st.integers(0, 4))
    return c


PROP = Prop("S05", [
    Sub("data-functional", cases, check, "several slabs, positive data weight, data domain a proper part of the mesh",
        quick=640, thorough=7680, shards_quick=8, shards_thorough=8,
        always=stx.grid(7, lambda r: {"sol": [[3, [1, 0, 0], 1.0], [1, [0, 2, 1], -2.0], [2, [2, 1, 0], 0.5]],
                                      "vseed": r.randrange(999), "halfspace": r.random() < 0.3, "cut": r.randrange(6), "init": r.randrange(5)})),
], assumptions=["stand-in for DOLFINx (lib/standin)", "data polynomial in time (degree <= 3) and space (<= 3), where the "
                "six-digit time quadrature is exact to 1e-5"])
