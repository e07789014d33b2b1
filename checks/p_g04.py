"""G04: printed convergence history and run-time options."""
import numpy as np
from hypothesis import strategies as st

from vh import gm
from vh.core import Info, Prop, Sub, require


def check_history(c):
    res = gm.call(c)
    got = gm.lines(res.text)
    if c["print"] is False:
        require(not got, f"{len(got)} iteration lines were printed although printing is off")
        return Info(False, ["off"])
    a = gm.analyse(c, res.A, res.P, res.b)
    o = a["o"]
    require(got and got[0][0] == 0, "the printed history does not start at iteration 0")
    for (i, _), (j, _) in zip(got, got[1:]):
        require(j in (i, i + 1), f"the printed iteration numbers jump from {i} to {j}")
    its = got[-1][0]
    require(its <= o["maxsteps"], f"iteration {its} printed with maxsteps={o['maxsteps']}")
    if a["rho0"] <= a["target"]:
        rho = [a["rho0"]]
    else:
        rho = gm.reference(a["B"], a["c0"], o["restart"], o["maxsteps"])
    checked = 0
    for i, v in got:
        if i >= len(rho):
            continue
        if rho[i] < 1e3 * a["floor"]:
            continue
        checked += 1
        require(abs(v - rho[i]) <= 0.012 * rho[i],
                f"iteration {i} printed residual {v:.3e}; the preconditioned residual norm is {rho[i]:.3e}")
    if a["target"] >= 50 * a["floor"]:
        if res.raised is None:
            require(got[-1][1] <= 1.02 * a["target"], lambda: f"last printed residual {got[-1][1]:.2e} misses the tolerance {a['target']:.2e}")
        elif a["target"] > 0:
            require(its == o["maxsteps"], f"raised, but the printed history ends at iteration {its} of {o['maxsteps']}")
    return Info(checked > 1 and c["n"] > 1, ["default" if c["print"] is None else "on", f"restart:{o['restart'] < its}"])


@st.composite
def printing(draw):
    c = draw(gm.cases(nmax=20))
    c["print"] = draw(st.sampled_from([None, True, True, True, False]))
    return c


@st.composite
def optcases(draw):
    c = draw(gm.cases(nmax=14))
    c["opts"] = {}
    for k, vals in [("ksp_rtol", [1e-9, 1e-4, 1e-2, 0.3]), ("ksp_atol", [1e-30, 1e-8, 1e-3]),
                    ("ksp_max_it", [1, 2, 4, 9, 200]), ("ksp_gmres_restart", [1, 2, 3, 30])]:
        if draw(st.booleans()):
            c["opts"][k] = draw(st.sampled_from(vals))
    c["unrelated"] = draw(st.sampled_from([None, "dxss_verif_unrelated", "mat_verif_unrelated"]))
    return c


NAMES = {"ksp_rtol": "reltol", "ksp_atol": "tol", "ksp_max_it": "maxsteps", "ksp_gmres_restart": "restart"}


def check_options(c):
    from petsc4py import PETSc

    db = PETSc.Options()
    extra = {c["unrelated"]: "17"} if c["unrelated"] else {}
    o = gm.opts_of(c)
    for k, v in c["opts"].items():
        o[NAMES[k]] = v
    before = gm.opts_of(c)
    try:
        for k, v in {**c["opts"], **extra}.items():
            db.setValue(k, v)
        res = gm.call(c)
        for k, v in {**c["opts"], **extra}.items():
            require(db.hasName(k), f"the user's run-time option -{k} disappeared from the options database")
            got = float(db.getString(k))
            require(got == float(v), f"the user's run-time option -{k} {v} was changed to {got}")
        a = gm.analyse(c, res.A, res.P, res.b, o=o)
        if res.raised is None:
            gm.judge_returned(c, res, a)
        v = gm.judge_decision(c, res, a)
        gm.work_ok(res, o)
    finally:
        for k in {**c["opts"], **extra}:
            db.delValue(k)
    # and without the options the arguments rule again
    res = gm.call(c)
    a = gm.analyse(c, res.A, res.P, res.b, o=before)
    if res.raised is None:
        gm.judge_returned(c, res, a)
    gm.judge_decision(c, res, a)
    lab = v if isinstance(v, str) else v[0]
    return Info(bool(c["opts"]) and lab in ("must-converge", "must-fail"), [lab, f"options:{len(c['opts'])}"])


PROP = Prop("G04", [
    Sub("printed-history", printing, check_history,
        "printing on, dimension > 1, at least two printed norms compared with the reference iteration",
        quick=4000, thorough=48000, shards_quick=8, shards_thorough=8, always=[
            {"n": 3, "kind": "shift", "mseed": i, "ascale": 1.0, "pre": "identity", "pscale": 1.0, "rhs": "random", "bscale": 1.0, "tol": 0.0,
             "reltol": 1e-9, "restart": 1, "maxsteps": n, "explicit_none": False, "print": True} for i, n in enumerate((101, 1003, 2100))]),
    Sub("runtime-options", optcases, check_options,
        "at least one run-time option set and a clear verdict of the reference iteration",
        quick=3000, thorough=36000, shards_quick=8, shards_thorough=8),
], assumptions=["printed norms carry three significant digits"])
