"""G02: no silent non-convergence; converges whenever the step budget suffices."""
import numpy as np
from hypothesis import strategies as st

from vh import gm
from vh.core import Info, Prop, Sub, require


def check(c):
    res = gm.call(c)
    a = gm.analyse(c, res.A, res.P, res.b)
    if res.raised is None:
        gm.judge_returned(c, res, a, residual=False)
    v = gm.judge_decision(c, res, a)
    gm.work_ok(res, a["o"])
    lab = v if isinstance(v, str) else v[0]
    if not isinstance(v, str):
        first, cyc = v[1], v[2]
        require(
            res.pre.calls <= first + 2 * cyc + 3,
            lambda: f"{res.pre.calls} preconditioner applications although step {first} already meets the tolerance",
        )
    return Info(lab in ("must-converge", "must-fail") and c["n"] > 1,
                [lab] + (["restarted"] if a["o"]["restart"] < min(a["o"]["maxsteps"], c["n"]) else []))


@st.composite
def poisoned(draw):
    c = draw(gm.cases(nmax=10))
    c["kind"] = draw(st.sampled_from(["spd", "nonnormal", "skew"]))
    c["n"] = max(3, c["n"])
    c["rhs"], c["pre"] = "random", draw(st.sampled_from(["identity", "diag", "dense"]))
    c["tol"], c["reltol"], c["maxsteps"] = 0.0, 1e-9, draw(st.sampled_from([None, 50]))
    c["where"] = draw(st.sampled_from(["mat", "pre"]))
    c["at"] = draw(st.sampled_from([1, 2, 3, 1, 2, 3, -1, -2, -3, 4, 5, 6, 7, 8, 9, 10]))
    c["how"] = draw(st.integers(0, 4))
    return c


def check_poison(c):
    A, P, _ = gm.system(c)
    at = c["at"]
    if at < 0:  # counted from the end of an undisturbed run: the applications that confirm the result
        clean = gm.call(c)
        at += 1 + (clean.mat.calls if c["where"] == "mat" else clean.pre.calls)
        at = max(at, 1)
    mat = gm.MatCtx(A, at if c["where"] == "mat" else None)
    pre = gm.PreCtx(P, at if c["where"] == "pre" else None)
    mat.how = pre.how = c.get("how", 0)
    res = gm.call(c, ctx=(mat, pre))
    hit = (mat.calls if c["where"] == "mat" else pre.calls) >= at
    if hit and res.raised is None:
        require(np.isfinite(res.x).all() and np.isfinite(res.r).all(),
                "a non-finite solution or residual was returned instead of raising")
        gm.judge_returned(c, res, gm.analyse(c, A, P, res.b), residual=False)
    return Info(hit, [c["where"], "raised" if res.raised is not None else "recovered"])


# ---------------------------------------------------------------- singular systems
@st.composite
def singular(draw):
    return {"n": draw(st.integers(2, 14)), "kind": draw(st.sampled_from(["sym", "diag", "proj", "rank", "jordan"])),
            "seed": draw(st.integers(0, 10**6)), "image": draw(st.booleans()), "integer": draw(st.booleans()),
            "pscale": draw(st.sampled_from([1.0, 0.1, 100.0])), "bscale": draw(st.sampled_from([1.0, 1e-4, 1e3])),
            "reltol": draw(st.sampled_from([None, 1e-7, 1e-5, 1e-3])), "tol": draw(st.sampled_from([None, 0.0])),
            "restart": draw(st.sampled_from([None, None, 2, 5])), "maxsteps": draw(st.sampled_from([None, 200, 5])),
            "explicit_none": False, "print": draw(st.booleans())}


def singular_system(c):
    n, rng = c["n"], np.random.default_rng(c["seed"])
    if c["kind"] == "sym":
        d = rng.choice([0.0, 0.0, 1.0, 2.0, -1.0, 3.0], size=n)
        d[0] = 0.0
        Q = np.linalg.qr(rng.standard_normal((n, n)))[0]
        A = Q @ np.diag(d) @ Q.T
    elif c["kind"] == "diag":
        d = rng.choice([0.0, 1.0, 2.0, -1.0], size=n)
        d[-1] = 0.0
        A = np.diag(d)
    elif c["kind"] == "proj":
        Q = np.linalg.qr(rng.standard_normal((n, max(1, n // 2))))[0]
        A = Q @ Q.T
    elif c["kind"] == "rank":
        m = min(2, n - 1)
        A = rng.standard_normal((n, m)) @ rng.standard_normal((m, n))
    else:
        A = np.diag(np.ones(n - 1), -1)
    b = rng.choice([0.0, 1.0], size=n) if c["integer"] else rng.standard_normal(n)
    if c["image"]:
        b = A @ b
    return A, np.eye(n) * c["pscale"], b * c["bscale"]


def well(A):
    """The nonzero part is well conditioned."""
    s = np.linalg.svd(A, compute_uv=False)
    s = s[s > 1e-10 * s[0]] if s[0] > 0 else s[:0]
    return len(s) > 0 and s[-1] > 1e-2 * s[0]


def check_singular(c):
    """No vector may be passed off as a solution of a system that has none (or that the iteration cannot solve)."""
    from petsc4py import PETSc

    from dxss.gmres import get_gmres_solution

    A, P, b = singular_system(c)
    x = None
    with gm.CaptureStdout():
        try:
            vx, vr = get_gmres_solution(gm.MatCtx(A), gm.vec(b), gm.PreCtx(P), **gm.kwargs_of(c))
            x, r = np.array(vx.array), np.array(vr.array)
        except PETSc.Error:
            pass
    o = gm.opts_of(c)
    rho0 = float(np.linalg.norm(P @ b))
    target = max(o["reltol"] * rho0, o["tol"])
    scale = np.linalg.norm(b)
    best = np.linalg.lstsq(A, b, rcond=1e-10)[0]
    consistent = np.linalg.norm(A @ best - b) <= 1e-11 * scale
    what = f"{c['kind']} system of {c['n']} unknowns, {'consistent' if consistent else 'without a solution'}"
    if x is not None:
        require(np.isfinite(x).all() and np.isfinite(r).all(), f"{what}: non-finite entries returned")
        res = float(np.linalg.norm(P @ (b - A @ x)))
        size = np.linalg.norm(A, 2) * np.linalg.norm(x)
        rounding = 1e-3 * rho0 if size > 1e9 * scale else 0.0  # as close as a vector of that size can get
        require(res <= 1.01 * target + 1e-9 * rho0 + 1.1 * rounding,
                lambda: f"{what}: returned a vector with preconditioned residual {res:.3e} > requested {target:.3e} (initial {rho0:.3e})")
    elif consistent and c["kind"] != "jordan" and well(A) and c["restart"] is None and o["maxsteps"] >= c["n"] and target > 1e-8 * rho0:
        require(False, f"{what}: raised although full GMRES solves it in {c['n']} steps")
    return Info(rho0 > target and not (consistent and c["kind"] != "jordan"),
                [c["kind"], "consistent" if consistent else "inconsistent", "raised" if x is None else "returned"])


def _always():
    base = dict(n=12, kind="shift", mseed=1, ascale=1.0, pre="identity", pscale=1.0, rhs="e1", bscale=1.0,
                tol=None, reltol=None, restart=None, maxsteps=None, explicit_none=False, print=False)
    return [
        {**base, "n": 100},                                  # default budget: exactly 100 steps suffice
        {**base, "n": 101},                                  # one step short of the default budget
        {**base, "n": 985, "maxsteps": 990},                 # default restart length (1000)
        {**base, "n": 40, "restart": 39, "maxsteps": 200},   # stagnates
        {**base, "n": 40, "restart": 40, "maxsteps": 200},
        {**base, "n": 40, "maxsteps": 40}, {**base, "n": 40, "maxsteps": 39},
        {**base, "n": 60, "explicit_none": True},
        {**base, "n": 5, "rhs": "zero"},
        {**base, "n": 30, "restart": 1, "kind": "spd", "maxsteps": 20, "rhs": "random"},
        {**base, "n": 30, "restart": 1, "kind": "spd", "maxsteps": 400, "rhs": "random"},
        {**base, "n": 30, "restart": 1, "kind": "spd", "maxsteps": 1, "rhs": "random"},
    ]


PROP = Prop("G02", [
    Sub("decision", gm.cases, check,
        "the reference (restarted) minimal-residual iteration decides clearly (factor 2 / 1.01) that the budget "
        "suffices or does not, dimension > 1", quick=3504, thorough=60000, shards_quick=8, shards_thorough=8,
        always=_always()),
    Sub("decision-large", lambda: gm.cases(big=True), check, "as decision, dimensions 25..160",
        quick=304, thorough=4000, shards_quick=8, shards_thorough=8),
    Sub("nonfinite", poisoned, check_poison, "a non-finite operator/preconditioner result was injected before convergence",
        quick=496, thorough=5952, shards_quick=8, shards_thorough=4),
    Sub("singular", singular, check_singular, "the system is singular and has no solution, or one that Krylov spaces do not contain",
        quick=1200, thorough=16000, shards_quick=8, shards_thorough=16,
        always=[{"n": 3, "kind": "jordan", "seed": 0, "image": False, "integer": True, "pscale": 1.0, "bscale": 1.0, "reltol": None,
                 "tol": None, "restart": None, "maxsteps": None, "explicit_none": False, "print": False}]),
], assumptions=["generated operators have moderate condition numbers, so that the reference iteration and the "
                "solver's agree to far better than the decision margins"])
