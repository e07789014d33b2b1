"""D04: the drivers set up the problem their constants describe, and their solution approximates the sample solution."""
import numpy as np
from hypothesis import strategies as st

from vh import drv, stx
from vh.core import Info, Prop, Sub, close, require

KEYS = ("L2-u(T)", "max L2-u", "max L2-ut", "L2L2-ut")

# (dim, geometric control, order, N or level): final time -> the four errors on the correct code.  Limits are FACTOR
# times the larger value of the two neighbouring final times: far above rounding or mesh-generator differences, far
# below what a wrong order, domain, sign or time gives.
FACTOR = 2.0
TABLE = {
    (1, 0, 1, 4): {1.0: (0.83, 0.83, 3.5, 2.4), 1.25: (0.32, 1.1, 4.2, 3.0)},
    (1, 0, 1, 5): {1.0: (0.64, 0.64, 2.8, 2.1), 1.25: (0.32, 0.86, 3.9, 2.7)},
    (1, 0, 1, 6): {1.0: (0.52, 0.53, 2.7, 1.9), 1.25: (0.32, 0.68, 3.7, 2.5)},
    (1, 0, 1, 8): {1.0: (0.38, 0.4, 2.2, 1.6), 1.25: (0.31, 0.5, 3.2, 2.1)},
    (1, 0, 1, 10): {1.0: (0.3, 0.32, 2.0, 1.4), 1.25: (0.29, 0.39, 2.8, 1.9)},
    (1, 0, 1, 12): {1.0: (0.25, 0.26, 1.8, 1.2), 1.25: (0.26, 0.33, 2.5, 1.6)},
    (1, 0, 1, 16): {1.0: (0.18, 0.19, 1.4, 0.95), 1.25: (0.22, 0.26, 2.0, 1.3)},
    (1, 0, 2, 4): {1.0: (0.025, 0.067, 1.0, 0.42), 1.25: (0.18, 0.19, 2.0, 0.84)},
    (1, 0, 2, 5): {1.0: (0.013, 0.043, 0.62, 0.29), 1.25: (0.13, 0.13, 1.3, 0.6)},
    (1, 0, 2, 6): {1.0: (0.0083, 0.033, 0.41, 0.21), 1.25: (0.092, 0.094, 0.87, 0.44)},
    (1, 0, 2, 8): {1.0: (0.0055, 0.019, 0.24, 0.12), 1.25: (0.053, 0.054, 0.46, 0.26)},
    (1, 0, 2, 10): {1.0: (0.0043, 0.011, 0.13, 0.085), 1.25: (0.033, 0.034, 0.28, 0.17)},
    (1, 0, 2, 12): {1.0: (0.0036, 0.0086, 0.095, 0.063), 1.25: (0.023, 0.023, 0.19, 0.12)},
    (1, 0, 3, 4): {1.0: (0.0079, 0.012, 0.14, 0.075), 1.25: (0.0085, 0.017, 0.3, 0.13)},
    (1, 0, 3, 5): {1.0: (0.005, 0.0065, 0.083, 0.038), 1.25: (0.0034, 0.0066, 0.11, 0.058)},
    (1, 0, 3, 6): {1.0: (0.0033, 0.004, 0.053, 0.025), 1.25: (0.0017, 0.0032, 0.088, 0.033)},
    (1, 0, 3, 8): {1.0: (0.0017, 0.002, 0.025, 0.012), 1.25: (0.00053, 0.001, 0.037, 0.013)},
    (1, 0, 3, 10): {1.0: (0.0011, 0.0012, 0.014, 0.0077), 1.25: (0.00023, 0.00041, 0.017, 0.0067)},
    (1, 0, 3, 12): {1.0: (0.00076, 0.00081, 0.0091, 0.0054), 1.25: (0.00012, 0.0002, 0.0094, 0.0038)},
    (2, 0, 1, 0): {0.5: (0.16, 0.16, 1.2, 0.59), 0.75: (0.13, 0.18, 1.6, 0.73), 1.0: (0.32, 0.32, 2.9, 1.4), 1.25: (0.56, 0.56, 2.5, 1.8)},
    (2, 0, 1, 1): {0.5: (0.068, 0.082, 1.0, 0.35), 0.75: (0.055, 0.11, 1.3, 0.56), 1.0: (0.18, 0.19, 1.7, 0.91), 1.25: (0.23, 0.23, 1.3, 0.93)},
    (2, 0, 1, 2): {0.5: (0.036, 0.04, 0.6, 0.19), 0.75: (0.017, 0.054, 0.95, 0.34), 1.0: (0.083, 0.083, 1.2, 0.55), 1.25: (0.11, 0.11, 1.3, 0.63)},
    (2, 0, 2, 0): {0.5: (0.026, 0.049, 0.81, 0.26), 0.75: (0.077, 0.091, 1.7, 0.67), 1.0: (0.18, 0.18, 2.5, 1.0), 1.25: (0.18, 0.18, 2.7, 1.1)},
    (2, 0, 2, 1): {0.5: (0.0046, 0.0078, 0.25, 0.062), 0.75: (0.0093, 0.02, 0.46, 0.16), 1.0: (0.039, 0.046, 0.91, 0.32), 1.25: (0.047, 0.077, 1.4, 0.61)},
    (2, 0, 3, 0): {0.5: (0.0029, 0.0049, 0.11, 0.032), 0.75: (0.0071, 0.024, 0.24, 0.13), 1.0: (0.071, 0.071, 1.2, 0.43), 1.25: (0.2, 0.2, 3.1, 1.0)},
    (3, 0, 1, 0): {0.5: (1.2, 1.5, 6.0, 3.8), 0.75: (1.7, 1.7, 5.3, 3.5), 1.0: (1.0, 1.0, 2.9, 1.9), 1.25: (0.28, 0.42, 2.1, 1.5)},
    (3, 0, 1, 1): {0.5: (0.84, 0.97, 4.3, 2.6), 0.75: (1.1, 1.1, 4.0, 2.5), 1.0: (0.43, 0.58, 2.1, 1.4), 1.25: (0.55, 0.55, 1.7, 1.2)},
    (3, 1, 1, 0): {0.5: (0.26, 0.27, 1.6, 0.84), 0.75: (0.14, 0.3, 1.8, 1.0), 1.0: (0.29, 0.34, 2.0, 1.4), 1.25: (0.29, 0.36, 1.9, 1.4)},
    (3, 1, 1, 1): {0.5: (0.029, 0.039, 1.1, 0.31), 0.75: (0.11, 0.11, 1.4, 0.59), 1.0: (0.11, 0.11, 1.4, 0.62), 1.25: (0.15, 0.15, 2.0, 0.86)},
}
ROWS = sorted(TABLE)


def check_converges(c):
    dim, g, order, n = ROWS[c["row"] % len(ROWS)]
    ts = sorted(TABLE[dim, g, order, n])
    T = ts[0] + (ts[-1] - ts[0]) * c["t"] / 64.0
    T = float(T) if c["t"] not in (0, 64) or T != int(T) else int(T)
    lim = np.max([TABLE[dim, g, order, n][s] for s in ts if abs(s - T) < 0.25 - 1e-12], axis=0) * FACTOR
    vals = {"T": T}
    if dim == 1:
        vals.update(N=n, ORDER=order)
    else:
        vals.update(REF_LVL=n)
        vals.update({"ORDER": order} if dim == 2 else {"GCC": bool(g)})
    m = drv.load(dim, vals, levels=3, limit=60000)
    if m._missing:
        return Info(False, ["constants not overridable"])
    # with a residual tolerance of 1e-7 the iterative back ends do not resolve the errors of the higher orders
    if direct := c["direct"] or order > 1 or not hasattr(m, "SOLVER_TYPE"):
        m.SOLVER_TYPE = "direct"
    m.solve_problem(measure_errors=True)
    what = f"driver {dim}d {vals}"
    require(len(m._rec.measured) == 1, f"{what}: {len(m._rec.measured)} error measurements")
    e = [float(v) for v in m._rec.measured[0][2].values()]
    require(len(e) == 4, f"{what}: {len(e)} errors measured")
    for k, v, w in zip(KEYS, e, lim):
        require(np.isfinite(v) and v <= w, f"{what}: error {k} of the computed solution is {v:.3g}, expected at most {w:.3g}")
    return Info(True, [f"{dim}d", f"order={order}", f"n={n}", f"gcc={bool(g)}", "direct" if direct else "iterative"])


# ------------------------------------------------------------- the problem that is set up
def domain(dim, gcc):
    if dim == 1:
        return lambda x: (x[0] <= 0.2).astype(float)
    lo, hi = (0.2, 0.8) if dim == 2 else (0.25, 0.75)
    if dim == 3 and not gcc:
        return lambda x: (x[0] <= lo).astype(float)
    return lambda x: np.any([(x[i] <= lo) | (x[i] >= hi) for i in range(dim)], axis=0).astype(float)


def check_configured(c):
    dim = c["dim"]
    k, q, ks, qs = c["k"], c["q"], c["ks"], c["qs"]
    if dim > 1:
        k, q, ks, qs = min(k, 2), min(q, 1), min(ks, 2 if dim == 2 else 1), min(qs, 1)
        k = min(k, 2 if dim == 2 else 1)
    stabs = dict(zip(("data", "dual", "primal", "primal-jump"), (10.0 ** c["g"][0], 0.5 + c["g"][1], 10.0 ** -(1 + c["g"][2]), 0.25 + c["g"][3])))
    vals = {"k": k, "q": q, "kstar": ks, "qstar": qs, "T": c["T"] / 8.0, "STABS": stabs}
    gcc = bool(c["gcc"])
    if dim == 1:
        N = vals["N"] = c["N"]
    else:
        lvl = vals["REF_LVL"] = c["N"] % 2
        N = 2**lvl
    if dim == 3:
        vals["GCC"] = gcc
    m = drv.load(dim, vals, levels=1, limit=20000)
    if m._missing:
        return Info(False, ["constants not overridable"])
    from dxss import space_time as stm

    o = m._rec.objects[0]
    what = f"driver {dim}d {vals}"
    msh = o.msh
    x = msh._x
    require(x.shape[1] >= dim and np.allclose(x[:, :dim].min(0), 0, atol=1e-12) and np.allclose(x[:, :dim].max(0), 1, atol=1e-12),
            f"{what}: the mesh is not of the unit interval, square or cube")
    if dim == 3 and lvl == 0:  # the domain cuts the cells: the driver integrates a conditional (its values are D01's subject)
        if not hasattr(m, "omega_ind"):
            return Info(False, ["no indicator"])
        om = stm.DataDomain(indicator_function=m.omega_ind, fitted=False)
    else:
        om = stm.DataDomain(indicator_function=domain(dim, gcc))
    sol = stm.ValueAndDerivative(m.sample_sol, m.dt_sample_sol)
    r = type(o).__mro__[1](stm.OrderTime(q, qs), stm.OrderSpace(k, ks), N=N, T=vals["T"], t=0, msh=msh, omega=om,
                           stabilisation_terms=dict(stabs), solution=sol)
    r.setup_spacetime_finite_elements()
    r.prepare_precondition_gmres()
    b0, b1 = np.array(m.b_rhs.array) if hasattr(m, "b_rhs") else np.array(o.get_spacetime_rhs().array), np.array(r.get_spacetime_rhs().array)
    require(b0.shape == b1.shape, f"{what}: {b0.size} unknowns, expected {b1.size}")
    for pre in (False, True):
        A, R = stx.csr(o.get_spacetime_matrix(precond=pre)), stx.csr(r.get_spacetime_matrix(precond=pre))
        require(A.shape == R.shape, f"{what}: matrix of shape {A.shape}, expected {R.shape}")
        sc = abs(R).max()
        d = abs(A - R).max()
        require(d <= 1e-11 * sc, f"{what}: the space-time matrix (preconditioner={pre}) differs by {d / sc:.2e} from that of the problem described by the constants")
    close(b0, b1, 1e-11, f"{what}: right-hand side against that of the problem described by the constants", scale=max(abs(b1).max(), 1e-300))
    return Info(k != q or ks != qs or k != ks, [f"{dim}d", f"gcc={gcc}" if dim == 3 else "", f"k={k} q={q} k*={ks} q*={qs}"])


# ------------------------------------------------------------- as shipped
def check_shipped(c):
    """The constants as they stand describe a stabilised problem (weights > 0) on a time interval of positive length."""
    dim = c["dim"]
    m = drv.load(dim, {1: {"N": 2}, 2: {"REF_LVL": 0}, 3: {"REF_LVL": 0}}[dim])
    o = m._rec.objects[0]
    g = getattr(o, "stabilisation_terms", getattr(m, "STABS", {}))
    require(all(float(v) > 0 for v in g.values()), f"driver {dim}d: stabilisation weights {g}")
    require(float(getattr(o, "T", 1)) > 0 and int(getattr(o, "N", 1)) >= 1, f"driver {dim}d: time interval")
    b = m.b_rhs.array if hasattr(m, "b_rhs") else o.get_spacetime_rhs().array
    require(bool(np.all(np.isfinite(b))) and np.abs(b).max() > 0, f"driver {dim}d: right-hand side is not usable data")
    return Info(True, [f"{dim}d"])


def conv_cases():
    return st.fixed_dictionaries({"row": st.integers(0, len(ROWS) - 1), "t": st.integers(0, 64), "direct": st.booleans()})


def conf_cases():
    o = st.integers(1, 3)
    return st.fixed_dictionaries({
        "dim": st.sampled_from([1, 1, 1, 2, 3]), "k": o, "q": o, "ks": o, "qs": st.integers(0, 2), "N": st.integers(1, 4), "T": st.integers(1, 24),
        "gcc": st.booleans(), "g": st.lists(st.integers(0, 4), min_size=4, max_size=4)})


PROP = Prop("D04", [
    Sub("converges", conv_cases, check_converges, "every case", quick=32, thorough=900, shards_quick=8, shards_thorough=8,
        always=[{"row": ROWS.index(r), "t": 64 if r[0] == 2 else 0, "direct": False} for r in
                ((1, 0, 1, 16), (1, 0, 2, 8), (1, 0, 3, 4), (2, 0, 1, 1), (2, 0, 2, 1), (2, 0, 3, 0), (3, 1, 1, 1), (3, 0, 1, 1))]),
    Sub("configured", conf_cases, check_configured, "some of the four orders differ", quick=80, thorough=2400, shards_quick=8, shards_thorough=8,
        always=[{"dim": d, "k": 2, "q": 1, "ks": 1, "qs": 0, "N": n, "T": 5, "gcc": g, "g": [2, 1, 3, 2]} for d, n, g in
                ((1, 3, False), (2, 1, False), (3, 1, False), (3, 1, True), (3, 2, False), (3, 2, True))]),
    Sub("shipped", lambda: st.fixed_dictionaries({"dim": st.integers(1, 3)}), check_shipped, "every case", quick=3, thorough=3,
        shards_quick=1, shards_thorough=1, always=[{"dim": d} for d in (1, 2, 3)]),
], assumptions=["constants of the drivers are changed by importing copies with other values; the error limits come from the corrected code with a factor of two"])
