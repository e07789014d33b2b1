"""D01: the drivers' sample solutions solve the wave equation; their data domains are the documented sets."""
import numpy as np
from hypothesis import strategies as st

from vh import drv
from vh.core import Info, Prop, Sub, close, require

_MODS = {}


def module(dim, gcc, lvl):
    key = (dim, gcc, lvl)
    if key not in _MODS:
        vals = {1: {"N": 1}, 2: {"REF_LVL": 0, "ORDER": 1}, 3: {"REF_LVL": lvl, "GCC": gcc}}[dim]
        m = drv.load(dim, vals)
        if dim == 3 and "GCC" in m._missing:
            m._gcc_fixed = True
        _MODS[key] = m
    return _MODS[key]


def evaluator(m, name):
    """(t, x) -> float through ufl's own point evaluation."""
    import ufl

    from dolfinx import mesh as dm

    f = getattr(m, name)
    obj = m._rec.objects[0]
    msh = getattr(obj, "msh", None)
    dom = (msh or dm.create_unit_interval(None, 1)).ufl_domain()
    X = ufl.SpatialCoordinate(dom)

    def ev(t, x):
        e = f(float(t), X)
        if isinstance(e, (int, float)):
            return float(e)
        return float(e(tuple(float(v) for v in x)))

    return ev


# eighth-order central differences
D1 = np.array([1 / 280, -4 / 105, 1 / 5, -4 / 5, 0, 4 / 5, -1 / 5, 4 / 105, -1 / 280])
D2 = np.array([-1 / 560, 8 / 315, -1 / 5, 8 / 5, -205 / 72, 8 / 5, -1 / 5, 8 / 315, -1 / 560])
H = 0.01
OFF = np.arange(-4, 5) * H


def check_solution(c):
    dim = c["dim"]
    m = module(dim, False, 0)
    u, ut = evaluator(m, "sample_sol"), evaluator(m, "dt_sample_sol")
    t, x = c["t"] / 97.0, np.array(c["x"][:dim]) / 89.0
    sc = 12.0 * dim
    utt = sum(w * u(t + o, x) for w, o in zip(D2, OFF)) / H**2
    lap = 0.0
    for i in range(dim):
        e = np.zeros(dim)
        e[i] = 1
        lap += sum(w * u(t, x + o * e) for w, o in zip(D2, OFF)) / H**2
    what = f"driver {dim}d at t={t:.6g}, x={np.round(x, 6).tolist()}"
    close(utt, lap, 1e-9, f"{what}: second time derivative of the sample solution against its Laplacian", scale=sc * np.pi**2)
    dt = sum(w * u(t + o, x) for w, o in zip(D1, OFF)) / H
    close(ut(t, x), dt, 1e-9, f"{what}: stated time derivative", scale=sc)
    for i in range(dim):
        for w in (0.0, 1.0):
            y = x.copy()
            y[i] = w
            close(u(t, y), 0.0, 1e-12, f"{what}: sample solution on the boundary x[{i}]={w}", scale=1.0)
            close(ut(t, y), 0.0, 1e-11, f"{what}: time derivative on the boundary x[{i}]={w}", scale=1.0)
    # not the trivial solution
    tt = np.linspace(0, 1, 12)
    require(max(abs(u(s, x * 0 + 0.23)) for s in tt) > 0.05, f"driver {dim}d: the sample solution vanishes")
    return Info(abs(u(t, x)) > 1e-3, [f"{dim}d"])


def expected(dim, name, p, size):
    """1 inside the documented data domain; p: (3, n)."""
    if name in ("omega_ind_nogcc",) or (dim == 3 and name == "left"):
        return (p[0] <= size).astype(float)
    near = np.zeros(p.shape[1], bool)
    for i in range(dim):
        near |= (p[i] <= size) | (p[i] >= {0.2: 0.8, 0.25: 0.75}[size])
    return near.astype(float)


def check_indicator(c):
    dim, lvl, gcc = c["dim"], c["lvl"], c["gcc"]
    m = module(dim, gcc if dim == 3 else False, lvl if dim == 3 else 0)
    gcc = bool(getattr(m, "GCC", False))
    size = 0.25 if dim == 3 else 0.2
    pts = np.zeros((3, len(c["pts"])))
    for j, q in enumerate(c["pts"]):
        for i in range(dim):
            pts[i, j] = q[i] / 991.0  # never within 1e-4 of an interface
    snap = c["snap"]  # move some coordinate onto, just inside or just outside an interface
    if snap:
        axis, side, eps = snap[0] % dim, snap[1], snap[2] * 1e-9
        pts[axis, 0] = (size if side == 0 else 1 - size) + eps
        if snap[2] == 0:
            # exactly on the interface: a null set for the UFL indicators, which are only ever integrated; the indicator
            # functions, which are evaluated pointwise, include it
            if dim == 3 and lvl == 0:
                pts[axis, 0] += 1e-7 if side else -1e-7
            else:
                pts[axis, 0] = {0.2: (0.2, 0.8), 0.25: (0.25, 0.75)}[size][side]
    names = {1: ["omega_ind_convex", "omega_ind_nogcc"], 2: ["omega_ind_convex"], 3: ["omega_ind"]}[dim]
    for nm in names:
        f = getattr(m, nm, None)
        if f is None:
            continue
        kind = nm if dim < 3 else ("around" if gcc else "left")
        want = expected(dim, kind, pts, size)
        before = pts.copy()
        if callable(f) and not hasattr(f, "ufl_shape"):
            got = np.asarray(f(pts), dtype=float)
        else:
            got = np.array([float(f(tuple(p))) for p in pts.T])
        require(got.shape == want.shape, f"{dim}d {nm}: shape {got.shape} for {pts.shape[1]} points")
        require(np.array_equal(pts, before), f"{dim}d {nm}: changes the points")
        bad = np.where(got != want)[0]
        require(len(bad) == 0, lambda: f"{dim}d {nm} (GCC={gcc}, level {lvl}): {got[bad[0]]} at {pts[:dim, bad[0]].tolist()}, expected {want[bad[0]]}")  # noqa: B023
    # the data domain of the problem set up by the driver is that set
    obj = m._rec.objects[0]
    msh = getattr(obj, "msh", None)
    if msh is not None and hasattr(obj, "omega_ind") and dim < 3:
        a = getattr(obj.omega_ind, "x", None)
        if a is not None and len(a.array) == len(msh._cells):
            from dolfinx import fem

            mid = msh._x[msh._cells].mean(axis=1).T
            mid3 = np.zeros((3, mid.shape[1]))
            mid3[:dim] = mid
            want = expected(dim, "omega_ind_nogcc" if dim == 1 else "around", mid3, size)
            V = obj.omega_ind.function_space
            dofs = np.array([V.dofmap.cell_dofs(i)[0] for i in range(len(msh._cells))])
            sel = np.abs(msh._x[msh._cells] - 0).sum() >= 0
            if sel:
                vals = np.asarray(a.array)[dofs]
                # cells cut by the interface (coarse meshes) are not judged
                lo, hi = msh._x[msh._cells].min(1), msh._x[msh._cells].max(1)
                cut = np.zeros(len(dofs), bool)
                for i in range(dim):
                    for w in (size, 1 - size):
                        cut |= (lo[:, i] < w - 1e-9) & (hi[:, i] > w + 1e-9)
                require(np.array_equal(vals[~cut], want[~cut]), f"{dim}d: the data domain of the driver's problem differs from its indicator")
            _ = fem
    return Info(0 < want.sum() < len(want) if want.size > 1 else True, [f"{dim}d", f"gcc={gcc}", f"lvl={lvl}"])


def sol_cases():
    return st.fixed_dictionaries({"dim": st.integers(1, 3), "t": st.integers(0, 97),
                                  "x": st.lists(st.integers(0, 89), min_size=3, max_size=3)})


def ind_cases():
    pt = st.lists(st.integers(0, 991), min_size=3, max_size=3)
    return st.fixed_dictionaries({
        "dim": st.integers(1, 3), "lvl": st.integers(0, 1), "gcc": st.booleans(),
        "pts": st.lists(pt, min_size=1, max_size=12),
        "snap": st.one_of(st.none(), st.tuples(st.integers(0, 2), st.integers(0, 1), st.sampled_from([-1000, -10, 0, 10, 1000])))})


PROP = Prop("D01", [
    Sub("wave_equation", sol_cases, check_solution, "|u| > 1e-3 at the point", quick=1200, thorough=14400, shards_quick=8, shards_thorough=8),
    Sub("data_domain", ind_cases, check_indicator, "points on both sides of the interface", quick=1200, thorough=14400, shards_quick=8,
        shards_thorough=8, always=[{"dim": d, "lvl": lv, "gcc": g, "snap": None,
                                    "pts": [[a, b, e] for a in (0, 100, 230, 500, 770, 950, 991) for b in (0, 100, 230, 500, 770, 950, 991) for e in (0, 100, 500, 950, 991)]}
                                   for d in (1, 2, 3) for lv in (0, 1) for g in (False, True)]
        + [{"dim": d, "lvl": lv, "gcc": g, "snap": [ax, side, e], "pts": [[480, 510, 500]]}  # on, and just beside, every interface
           for d in (1, 2, 3) for lv in (0, 1) for g in (False, True) for ax in range(d) for side in (0, 1) for e in (-10, 0, 10)]),
], assumptions=["the 3D driver's constants GCC and REF_LVL are varied by importing a copy with other values"])
