"""G01: what the Krylov solver returns meets the requested tolerance, with the true residual."""
from hypothesis import strategies as st

from vh import gm
from vh.core import Info, Prop, Sub


def check(c):
    res = gm.call(c)
    a = gm.analyse(c, res.A, res.P, res.b)
    if res.raised is not None:
        return Info(False, ["raised"])
    ok = gm.judge_returned(c, res, a)
    abs_rules = a["o"]["tol"] > a["o"]["reltol"] * a["rho0"]
    return Info(ok and c["n"] > 1 and a["rho0"] > a["target"],
                ["returned" if ok else "returned-unattainable", "absolute" if abs_rules else "relative"] + (["zero-rhs"] if a["rho0"] == 0 else []))


@st.composite
def solvable(draw):
    c = draw(gm.cases())
    # enough steps that most cases return
    c["maxsteps"] = draw(st.sampled_from([None, 400, c["n"] + 2, 4 * c["n"] + 5, c["maxsteps"]]))
    return c


def _always():
    base = dict(n=12, kind="spd", mseed=1, ascale=1.0, pre="identity", pscale=1.0, rhs="random", bscale=1.0,
                tol=None, reltol=None, restart=None, maxsteps=None, explicit_none=False, print=False)
    out = []
    for tol, reltol, bs, pre, ps in [
        (0.0, 1e-6, 1e-8, "identity", 1.0), (1e-6, 0.0, 1.0, "identity", 1.0), (0.0, 0.5, 1e-9, "diag", 1.0),
        (None, None, 1e-5, "identity", 1.0), (None, None, 1e-9, "identity", 1.0), (1e-3, 1e-9, 1.0, "scaled", 1e-3),
        (1e-3, 1e-9, 1.0, "scaled", 1e3), (1e-9, 1e-3, 1.0, "dense", 1.0), (0.0, 0.0, 1.0, "inverse", 1.0),
    ]:
        out.append({**base, "tol": tol, "reltol": reltol, "bscale": bs, "pre": pre, "pscale": ps})
        out.append({**base, "kind": "nonnormal", "n": 20, "tol": tol, "reltol": reltol, "bscale": bs, "pre": pre,
                    "pscale": ps, "restart": 3, "maxsteps": 400})
    return out


PROP = Prop("G01", [
    Sub("tolerance", solvable, check,
        "a system of dimension > 1 whose zero initial guess misses the tolerance and for which the solver returned",
        quick=6000, thorough=72000, shards_quick=8, shards_thorough=8, always=_always()),
], assumptions=["the initial guess is zero (the interface has no other)",
                "roundoff slack 1e-12 * ||M^-1|| (||b|| + ||A|| ||x||) on the stopping test"])
