"""S08: the reported errors are the norms of the difference to the reference solution."""
import numpy as np
from hypothesis import strategies as st

from vh import poly, stx, tm
from vh.core import Info, Prop, Sub, require
from p_s01 import labels

KEYS = {"L2-u1-T", "L-infty-L2-error-u", "L-infty-L2-error-ut", "L2-L2-error-u_t"}
NS = 105


class Reconstruction:
    """u_h of a reference vector: in slab n the nodal polynomial minus theta times the jump at the left end."""

    def __init__(self, c, L, xr):
        self.c, self.dt = c, c["T"] / c["N"]
        self.U = [[xr[L.idx(0, n, i)] for i in range(c["q"] + 1)] for n in range(c["N"])]
        self.phi = tm.lagrange(c["q"])

    def _weights(self, n, t, der):
        s = t / self.dt - n
        f = [np.polynomial.polynomial.polyval(s, [float(v) for v in (tm.pder(p) if der else p)]) for p in self.phi]
        tau = 2 * s - 1
        th = (2 * tau - 1) if der else tau * (tau - 1) / 2
        return f, th  # d/ds theta(2 s - 1) = 2 (tau - 1/2)

    def at(self, n, t, der=False):
        f, th = self._weights(n, t, der)
        v = sum(w * u for w, u in zip(f, self.U[n]))
        if n > 0:
            v = v - th * (self.U[n][0] - self.U[n - 1][-1])
        return v / self.dt if der else v


def errsq(B, coef, p, t, k, deg):
    return B.S.l2(k, coef, lambda X: p.at(t, X), deg)


def reference(B, xr, u, ut):
    c, k = B.c, B.c["k"]
    d = B.S.d
    deg = 2 * max(k, u.deg_x()) + 2 + (d if B.S.box else 0)
    R = Reconstruction(c, B.L, xr)
    dt, T, N = R.dt, c["T"], c["N"]
    zero = poly.Poly(d, {})
    out = {"end": errsq(B, R.U[-1][-1], u, T, k, deg)}
    lo = {"u": 0.0, "ut": 0.0}
    hi = {"u": 0.0, "ut": 0.0}
    scale = {"u": 1e-300, "ut": 1e-300, "l2": 0.0}
    for i in range(NS):
        t = T * i / (NS - 1)
        sl = {min(N - 1, max(0, int(np.floor(t / dt + o)))) for o in (1e-9, -1e-9)}
        for name, p, der in (("u", u, False), ("ut", ut, True)):
            e = [errsq(B, R.at(n, t, der), p, t, k, deg) for n in sl]
            lo[name] = max(lo[name], min(e))
            hi[name] = max(hi[name], max(e))
            if i % 8 == 0 or i == NS - 1 or len(sl) > 1:
                # magnitude of everything that is added up before the difference is formed
                f, th = R._weights(min(sl), t, der)
                big = sum(np.abs(w) * np.abs(v) for w, v in zip(f, R.U[min(sl)])) + abs(th) * np.abs(R.U[min(sl)][0])
                scale[name] = max(scale[name], errsq(B, big / (dt if der else 1.0), zero, t, k, deg) + errsq(B, 0 * big, p, t, k, deg))
    # the integral in time, by a rule exact for the polynomials generated here
    g, w = np.polynomial.legendre.leggauss(8)
    tot = 0.0
    top = 0.0
    for n in range(N):
        for a, b in zip(g, w):
            t = (n + (a + 1) / 2) * dt
            e = errsq(B, R.at(n, t, True), ut, t, k, deg)
            top = max(top, e)
            tot += 0.5 * dt * b * e
    out.update(lo=lo, hi=hi, scale=scale, l2=tot, top=top * T)
    return out


def check(c):
    from dxss.space_time import ValueAndDerivative

    d = stx.KINDS[c["mesh"]["kind"]]
    if c["mode"] == "exact":
        u = poly.wave(d, c["wave"], min(c["q"], c["k"]))
    else:
        u = poly.general(d, c["sol"], 5, c["k"] + 1)
    ut = u.dt()
    B = stx.build(c, solution=ValueAndDerivative(lambda t, x: u(t, x), lambda t, x: ut(t, x)))
    s, L = B.st, B.L
    rng = np.random.default_rng(c["vseed"])
    from p_s04 import interpolant

    xr = interpolant(B, u, ut)
    if c["mode"] == "random":
        xr = rng.standard_normal(L.n) * max(1.0, np.abs(xr).max())
    elif c["mode"] == "level":  # the error sits in one time level of the displacement
        n, i = int(rng.integers(0, c["N"])), int(rng.integers(0, c["q"] + 1))
        xr[L.idx(0, n, i)] += rng.standard_normal(L.ns[0]) * c["amp"]
    # the other fields play no role
    xr[L.off[1]:] = rng.standard_normal(L.n - L.off[1]) * 100.0
    x = np.empty(L.n)
    x[stx.perm(B)] = xr
    vx = stx.vec(x)
    i1, i2 = rng.standard_normal(L.ns[0]), rng.standard_normal(L.ns[0])
    s.u1_0.x.array[:], s.u2_0.x.array[:] = i1, i2
    got = s.measured_errors(vx, verbose=c["verbose"]) if c["verbose"] is not None else s.measured_errors(vx)
    require(np.array_equal(vx.array, x), "the solution vector was modified")
    require(np.array_equal(s.u1_0.x.array, i1) and np.array_equal(s.u2_0.x.array, i2), "the initial data was modified")
    require(set(got) >= KEYS, f"missing error entries: {sorted(KEYS - set(got))}")
    r = reference(B, xr, u, ut)
    sc, tiny = r["scale"], 1e-11

    def band(key, lo, hi, scale, rel=1e-7):
        v = float(got[key]) ** 2
        require(np.isfinite(v) and lo * (1 - rel) - tiny * scale <= v <= hi * (1 + rel) + tiny * scale,
                lambda: f"{key} = {float(got[key]):.10g}, expected {np.sqrt(lo):.10g}"
                        + (f" to {np.sqrt(hi):.10g}" if hi > lo else "") + f" (scale {np.sqrt(scale):.3g})")

    band("L2-u1-T", r["end"], r["end"], sc["u"])
    band("L-infty-L2-error-u", r["lo"]["u"], r["hi"]["u"], sc["u"])
    band("L-infty-L2-error-ut", r["lo"]["ut"], r["hi"]["ut"], sc["ut"])
    band("L2-L2-error-u_t", r["l2"] - 3e-5 * r["top"], r["l2"] + 3e-5 * r["top"], sc["ut"] * c["T"])
    if c["mode"] == "exact":
        for k_, s_ in (("L2-u1-T", sc["u"]), ("L-infty-L2-error-u", sc["u"]), ("L-infty-L2-error-ut", sc["ut"]),
                       ("L2-L2-error-u_t", sc["ut"] * c["T"])):
            require(float(got[k_]) <= 1e-5 * np.sqrt(s_), f"{k_} = {got[k_]:.3e} for an exactly represented solution")
    if c["again"]:
        g2 = s.measured_errors(vx)
        require(all(abs(g2[k_] - got[k_]) <= 1e-12 * abs(got[k_]) for k_ in KEYS), "the reported errors are not repeatable")
    return Info(c["N"] > 1 and c["mode"] != "exact", labels(c) + [c["mode"]])


@st.composite
def cases(draw):
    # 105 samples in time: keep the meshes small
    m = draw(st.sampled_from(["exact", "level", "level", "random", "interpolant"]))
    c = draw(stx.cfgs(kinds=["interval", "interval", "triangle", "quadrilateral", "tetrahedron"], maxN=10, budget=260,
                      qmin=1 if m == "exact" else 0))
    if c["mesh"]["kind"] != "interval":
        c["mesh"]["n"] = [min(v, 1) for v in c["mesh"]["n"]]
    c["mode"] = m
    c["N"] = draw(st.sampled_from([c["N"], c["N"], 3, 5, 6, 7]))
    c["wave"] = draw(poly.waves())
    c["sol"] = draw(poly.coefs(degt=draw(st.sampled_from([3, 3, 5]))))
    c["amp"] = draw(st.sampled_from([1.0, 1e-3, 1e3]))
    c["vseed"] = draw(st.integers(0, 9999))
    c["verbose"] = draw(st.sampled_from([None, False, True]))
    c["again"] = draw(st.integers(0, 4)) == 0
    return c


PROP = Prop("S08", [
    Sub("norms", cases, check, "at least two slabs and a discrete function different from the reference solution",
        quick=240, thorough=2880, shards_quick=8, shards_thorough=8,
        always=[dict(c, N=n or c["N"]) for n in (0, 1) for c in stx.grid(10, lambda r: {"mode": r.choice(["level", "random"]), "wave": [[0, [1.0] * 4]], "amp": 1.0, "vseed": r.randrange(999),
                                       "verbose": None, "again": False, "sol": [[5, [1, 0, 0], 1.0], [2, [0, 1, 0], -2.0]]},
                        budget=200, kinds=["interval"])]),
], assumptions=["stand-in for DOLFINx (lib/standin)", "the maximum in time is taken over 105 equidistant times including 0 and T; "
                "at a slab interface either one-sided value may be used", "the time integral of the squared error of u_t is "
                "accurate to 3e-5 (six-digit quadrature table)"])
