"""T02: the time basis is nodal, complete, and its listed derivatives are its derivatives."""
import numpy as np
from hypothesis import strategies as st

from vh import tm
from vh.core import Info, Prop, Sub, close, require


def check(c):
    from fractions import Fraction as Fr

    from dxss.precomp_time_int import basis_in_time

    q = c["q"]
    phi, dphi = basis_in_time[q]
    require(len(phi) == q + 1 and len(dphi) == q + 1, f"degree {q}: {len(phi)} functions, {len(dphi)} derivatives")
    L = tm.lagrange(q)
    t = c["num"] / c["den"]
    ft = Fr(t)
    vals = np.array([float(f(t)) for f in phi])
    ders = np.array([float(f(t)) for f in dphi])
    ref = np.array([float(tm.pval(p, ft)) for p in L])
    dref = np.array([float(tm.pval(tm.pder(p), ft)) for p in L])
    sc = 60.0 * (1 + abs(t)) ** max(q, 1)
    close(vals, ref, 1e-14, f"basis of degree {q} at {t}", scale=sc)
    close(ders, dref, 1e-14, f"derivatives of degree {q} at {t}", scale=sc)
    # interpolation reproduces polynomials of degree <= q and their derivatives
    coef = [Fr(x) for x in c["coef"][: q + 1]]
    nodes = [Fr(i, q) for i in range(q + 1)] if q else [Fr(1, 2)]
    nod = np.array([float(tm.pval(coef, x)) for x in nodes])
    m = 1 + np.abs(nod).max()
    close(vals @ nod, float(tm.pval(coef, ft)), 1e-13, f"interpolant of degree {q} at {t}", scale=sc * m)
    close(ders @ nod, float(tm.pval(tm.pder(coef), ft)), 1e-13, f"derivative of the interpolant at {t}", scale=sc * m)
    # arrays of times are evaluated pointwise
    ts = np.array([t, 0.25, 1.0])
    arr = np.array([np.broadcast_to(np.asarray(f(ts), dtype=float), (3,)) for f in phi])
    close(arr[:, 0], vals, 1e-13, "array evaluation", scale=sc)
    return Info(0 < t < 1 and (q == 0 or any(c["coef"][1 : q + 1])), [f"q{q}", "inside" if 0 <= t <= 1 else "outside"])


def cases():
    return st.fixed_dictionaries({
        "q": st.integers(0, 3), "num": st.integers(-600, 1600), "den": st.sampled_from([1000, 997, 512]),
        "coef": st.lists(st.integers(-20, 20), min_size=4, max_size=4),
    })


def check_lifting(c):
    from dxss.precomp_time_int import d_theta_ref, theta_ref

    t = c["num"] / 512.0
    sc = (1 + abs(t)) ** 2
    close(float(theta_ref(t)), t * (t - 1) / 2.0, 1e-14, f"theta({t})", scale=sc)
    close(float(d_theta_ref(t)), t - 0.5, 1e-14, f"theta'({t})", scale=sc)
    ts = np.array([t, -1.0, 0.0, 1.0])
    close(np.asarray(theta_ref(ts), dtype=float), np.array([t * (t - 1) / 2, 1.0, 0.0, 0.0]), 1e-14, "theta on an array", scale=sc)
    close(np.asarray(d_theta_ref(ts), dtype=float), ts - 0.5, 1e-14, "theta' on an array", scale=sc)
    return Info(-1 < t < 1 and t != 0, ["inside" if abs(t) <= 1 else "outside"])


PROP = Prop("T02", [
    Sub("basis", cases, check, "time strictly inside the reference interval, nonconstant polynomial (or degree 0)",
        quick=24000, thorough=288000, shards_quick=8, shards_thorough=8,
        always=[{"q": q, "num": n, "den": d, "coef": [1, 2, 3, 4]} for q in range(4) for d in (1, 2, 3) for n in range(d + 1)]),
    Sub("lifting", lambda: st.fixed_dictionaries({"num": st.integers(-1024, 1024)}), check_lifting,
        "interior of the reference interval, not a node", quick=2048, thorough=2049, shards_quick=2, shards_thorough=1,
        always=[{"num": n} for n in (-512, -256, 0, 256, 512)]),
])
