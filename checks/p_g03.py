"""G03: a solve leaves its inputs alone and does not depend on the solves before it."""
import numpy as np
from hypothesis import strategies as st

from vh import gm
from vh.core import Info, Prop, Sub, require


@st.composite
def histories(draw):
    n_sys = draw(st.integers(1, 3))
    systems = [draw(gm.cases(nmax=12)) for _ in range(n_sys)]
    steps = []
    for _ in range(draw(st.integers(2, 7))):
        i = draw(st.integers(0, n_sys - 1))
        o = {
            "tol": draw(st.sampled_from([None, 0.0, 1e-9, 1e-4, 1e-2])),
            "reltol": draw(st.sampled_from([None, 0.0, 1e-9, 1e-5, 1e-1])),
            "restart": draw(st.sampled_from([None, None, 1, 2, 4, 50])),
            "maxsteps": draw(st.sampled_from([None, None, 1, 2, 7, 300])),
            "print": draw(st.sampled_from([None, True, False])),
            "explicit_none": draw(st.booleans()),
            "poison": draw(st.sampled_from([None, None, None, "mat", "pre"])),
        }
        steps.append({"sys": i, **o})
    return {"systems": systems, "steps": steps}


def _params(s):
    return (s["sys"], *(s[k] for k in ("tol", "reltol", "restart", "maxsteps", "poison")))


def check(h):
    from petsc4py import PETSc

    built = []
    for c in h["systems"]:
        A, P, b = gm.system(c)
        built.append((A, P, b, gm.vec(b)))
    first, kept, repeats, ran = {}, [], 0, 0
    for s in [*h["steps"], *h["steps"][:2]]:
        A, P, b, vb = built[s["sys"]]
        c = {**h["systems"][s["sys"]], **{k: s[k] for k in ("tol", "reltol", "restart", "maxsteps", "print", "explicit_none")}}
        A0, P0 = A.copy(), P.copy()
        mat = gm.MatCtx(A, 2 if s["poison"] == "mat" else None)
        pre = gm.PreCtx(P, 2 if s["poison"] == "pre" else None)
        res = gm.call(c, ctx=(mat, pre), b=vb)
        ran += 1
        require(np.array_equal(vb.array, b), "the right-hand side vector was modified")
        require(np.array_equal(A, A0) and np.array_equal(P, P0), "the caller's operator or preconditioner data was modified")
        if res.raised is None:
            require(res.vx.handle != vb.handle and res.vr.handle != vb.handle and res.vx.handle != res.vr.handle,
                    "returned vectors alias each other or the right-hand side")
        if s["poison"] is None:  # judged by the options of this very call
            a = gm.analyse(c, A, P, b)
            if res.raised is None:
                gm.judge_returned(c, res, a)
            gm.judge_decision(c, res, a)
            gm.work_ok(res, a["o"])
        key = _params(s)
        got = (res.raised is None, None if res.x is None else res.x.tobytes(), None if res.r is None else res.r.tobytes(),
               mat.calls, pre.calls)
        if key in first:
            repeats += 1
            require(got == first[key], "the same solve gave a different result later in the history")
        first.setdefault(key, got)
        for vx, vr, x, r in kept:
            require(vx.array.tobytes() == x.tobytes() and vr.array.tobytes() == r.tobytes(),
                    "a later solve changed an already returned solution or residual")
        if res.raised is None:
            kept.append((res.vx, res.vr, res.x, res.r))
    PETSc.garbage_cleanup() if hasattr(PETSc, "garbage_cleanup") else None
    return Info(len(first) > 1 and repeats > 0, [f"calls:{ran}", f"distinct:{len(first)}"])


PROP = Prop("G03", [
    Sub("history", histories, check,
        "a history of at least two different solves in which at least one solve recurs",
        quick=2000, thorough=24000, shards_quick=8, shards_thorough=8),
], assumptions=["bitwise repeatability is required of single-process, single-threaded runs only"])
