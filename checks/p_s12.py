"""S12: what is plotted and written is the discrete solution (or its error)."""
import sys

import numpy as np
from hypothesis import strategies as st

from vh import poly, stx, tm
from vh.core import Info, Prop, Sub, close, require
from p_s01 import labels


class Recorder:
    """Collects the arrays handed to pcolormesh, whichever matplotlib interface is used."""

    def __enter__(self):
        import matplotlib.axes as ma
        import matplotlib.pyplot as plt

        self.calls = []
        self.cls, self.orig, self.show = ma.Axes, ma.Axes.pcolormesh, plt.show
        rec = self.calls
        orig = self.orig

        def pcolormesh(ax, *args, **kw):
            f, bar = sys._getframe(1), False  # the colour bar draws itself the same way
            while f is not None and not bar:
                bar, f = f.f_code.co_filename.endswith("matplotlib/colorbar.py"), f.f_back
            bar or rec.append([np.array(a, dtype=float) for a in args])
            return orig(ax, *args, **kw)

        ma.Axes.pcolormesh = pcolormesh
        plt.close("all")
        return self

    def __exit__(self, *exc):
        import matplotlib.pyplot as plt

        self.cls.pcolormesh = self.orig
        plt.close("all")
        return False


def values(B, xr, xs, sub):
    """(times, u, u_t) of the discrete solution on points xs of the x-axis."""
    c, S, L = B.c, B.S, B.L
    dt, q, k = c["T"] / c["N"], c["q"], c["k"]
    dm = S.dofs(k)[0]
    E = np.zeros((len(xs), S.ndof(k)))
    pts = np.zeros((len(xs), S.d))
    pts[:, 0] = xs
    for i, p in enumerate(pts):
        e = int(B.mesh._locate_cell(p[None])[0])
        E[i, dm[e]] += S._basis(k, S._ref(e, p[None]), 0, S.K[e])[0]
    phi = tm.lagrange(q)
    ts, u, ut = [], [], []
    for n in range(c["N"]):
        U = np.stack([E @ xr[L.idx(0, n, i)] for i in range(q + 1)])
        for m in range(sub):
            s = m / sub
            ts.append((n + s) * dt)
            f = np.array([np.polynomial.polynomial.polyval(s, [float(v) for v in p]) for p in phi])
            g = np.array([np.polynomial.polynomial.polyval(s, [float(v) for v in tm.pder(p)]) for p in phi])
            u.append(f @ U)
            ut.append(g @ U / dt)
    return np.array(ts), np.array(u), np.array(ut)


def make(c):
    from dxss.space_time import ValueAndDerivative

    d = stx.KINDS[c["mesh"]["kind"]]
    u = poly.general(d, c["sol"], 3, 3)
    ut = u.dt()
    B = stx.build(c, solution=ValueAndDerivative(lambda t, x: u(t, x), lambda t, x: ut(t, x)))
    rng = np.random.default_rng(c["vseed"])
    xr = rng.standard_normal(B.L.n) * c["amp"]
    x = np.empty(B.L.n)
    x[stx.perm(B)] = xr
    return B, u, ut, xr, x


def check_plots(c):
    B, u, ut, xr, x = make(c)
    s, ns, sub = B.st, c["n_space"], c["sub"]
    vx = stx.vec(x)
    xs = np.linspace(0.0, 1.0, ns)
    ts, U, UT = values(B, xr, xs, sub)
    with Recorder() as rec:
        if c["what"] == "error":
            s.plot_error(vx, n_space=ns, n_time_subdiv=sub)
            EU = np.array([np.abs(a - u.at(t, xs[:, None])) for t, a in zip(ts, U)])
            ET = np.array([np.abs(a - ut.at(t, xs[:, None])) for t, a in zip(ts, UT)])
            want = [("time derivative", UT), ("error", EU), ("error of the time derivative", ET)]
        else:
            a = c["what"] == "abs"
            s.plot(vx, n_space=ns, n_time_subdiv=sub, abs_val=a)
            want = [("solution", np.abs(U) if a else U), ("time derivative", np.abs(UT) if a else UT)]
    require(np.array_equal(vx.array, x), "the solution vector was modified")
    require(len(rec.calls) == len(want), f"{len(rec.calls)} colour plots instead of {len(want)}")
    for (name, w), args in zip(want, rec.calls):
        require(len(args) == 3, f"{name}: {len(args)} arrays plotted")
        X, Y, C = args
        close(X, xs, 1e-12, f"{name}: points in space", scale=1.0)
        close(Y, ts, 1e-12, f"{name}: times", scale=c["T"])
        sc = np.abs(w).max() + np.abs(U).max() + (np.abs(UT).max() if "derivative" in name else 0.0)
        close(C, w, 1e-9, f"{name}: plotted values", scale=sc)
    return Info(c["N"] > 1 and c["q"] > 0, [*labels(c), c["what"]])


@st.composite
def plots(draw):
    what = draw(st.sampled_from(["error", "error", "plain", "abs"]))
    c = draw(stx.cfgs(kinds=["interval"] if what == "error" else ["interval", "quadrilateral", "triangle"], budget=150))
    c["mesh"]["lo"], c["mesh"]["len"] = 0.0, [1.0] * len(c["mesh"]["n"])
    if c["mesh"]["kind"] == "interval" and draw(st.booleans()):
        c["mesh"]["lo"], c["mesh"]["len"] = -0.5, [2.0]
    c["what"], c["sol"] = what, draw(poly.coefs())
    c["vseed"], c["amp"] = draw(st.integers(0, 999)), draw(st.sampled_from([1.0, 1e-3, 50.0]))
    c["n_space"], c["sub"] = draw(st.sampled_from([2, 5, 9, 13])), draw(st.sampled_from([1, 2, 3, 5]))
    if c["N"] * c["sub"] < 2:  # a single row cannot be drawn
        c["sub"] = 2
    return c


def check_output(c):
    from dolfinx import _engine as E

    B, u, ut, xr, x = make(c)
    s, L = B.st, B.L
    vx = stx.vec(x)
    rng = np.random.default_rng(c["vseed"] + 1)
    i1, i2 = rng.standard_normal(L.ns[0]), rng.standard_normal(L.ns[1])
    s.u1_0.x.array[:], s.u2_0.x.array[:] = i1, i2
    E.config.xdmf_log = []
    if c["name"] is None:
        s.plot_para_view(vx)
    else:
        s.plot_para_view(vx, name=c["name"])
    log = E.config.xdmf_log
    E.config.xdmf_log = []
    require(np.array_equal(vx.array, x), "the solution vector was modified")
    require(np.array_equal(s.u1_0.x.array, i1) and np.array_equal(s.u2_0.x.array, i2), "the initial data was modified")
    stem = c["name"] or "abserr"
    files = {str(r[1]).split("/")[-1] for r in log}
    require(files == {f"{stem}-u.xdmf", f"{stem}-ut.xdmf"}, f"files written: {sorted(files)}")
    p = B.S.nodes(c["k"])
    for fld, suffix, nm, ex in ((0, "u", "u-abserr", u), (1, "ut", "ut-abserr", ut)):
        fs = [r for r in log if r[0] == "function" and str(r[1]).endswith(f"{stem}-{suffix}.xdmf")]
        require(len(fs) == 1, f"{len(fs)} functions in the file for {suffix}")
        _, _, name, _, arr, V, mesh = fs[0]
        require(name == nm, f"function named {name}")
        require(mesh is B.mesh, "another mesh was written")
        top = xr[L.idx(fld, c["N"] - 1, c["q"])]
        want = np.abs(ex.at(c["T"], p) - top)
        # order of the written space -> reference nodes, by coordinates
        X = np.asarray(V.tabulate_dof_coordinates())[:, : B.S.d]
        require(len(X) == len(p), "the output lives in another space")
        import scipy.spatial as ss

        dist, j = ss.cKDTree(p).query(X)
        require(dist.max() < 1e-8 and len(set(j)) == len(p), "the output lives in another space")
        close(arr, want[j], 1e-10, f"absolute error of {suffix} at the final time", scale=np.abs(top).max() + np.abs(want).max())
    return Info(c["N"] > 1 or c["q"] > 0, labels(c))


@st.composite
def outputs(draw):
    c = draw(stx.cfgs(budget=400))
    c["sol"], c["vseed"], c["amp"] = draw(poly.coefs()), draw(st.integers(0, 999)), draw(st.sampled_from([1.0, 1e-3, 50.0]))
    c["name"] = draw(st.sampled_from([None, "err", "run-3"]))
    return c


GRID = stx.grid(11, lambda r: {"what": r.choice(["error", "plain", "abs"]), "sol": [[3, [1, 0, 0], 1.0], [1, [2, 0, 0], -2.0]], "amp": 1.0,
                               "vseed": r.randrange(999), "n_space": 5, "sub": 3}, kinds=["interval"], budget=150)
for _c in GRID:
    _c["mesh"].update(lo=0.0, len=[1.0])


PROP = Prop("S12", [
    Sub("plots", plots, check_plots, "at least two slabs, degree in time at least one", quick=288, thorough=3456,
        shards_quick=8, shards_thorough=8,
        always=GRID),
    Sub("para-view-output", outputs, check_output, "more than one time level", quick=144, thorough=2000,
        shards_quick=8, shards_thorough=4),
], assumptions=["stand-in for DOLFINx (lib/standin)", "plots are drawn over [0, 1] on the first axis, so the mesh contains it"])
