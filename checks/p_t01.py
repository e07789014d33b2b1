"""T01: the element matrices in time are the exact integrals of the Lagrange basis."""
import numpy as np
from hypothesis import strategies as st

from vh import tm
from vh.core import Info, Prop, Sub, close, require

_memo = {}
KEYS = ["M_time_q_qstar", "M_time_q_q", "M_time_qstar_qstar", "DM_time_q_qstar", "DM_time_q_q", "DDM_time_q_q"]
FACT = {"M_time_q_qstar": ("qs", 0, "q", 0), "M_time_q_q": ("q", 0, "q", 0), "M_time_qstar_qstar": ("qs", 0, "qs", 0),
        "DM_time_q_qstar": ("qs", 0, "q", 1), "DM_time_q_q": ("q", 0, "q", 1), "DDM_time_q_q": ("q", 1, "q", 1)}


def get(q, qs):
    from dxss.precomp_time_int import get_elmat_time

    if (q, qs) not in _memo:
        _memo[q, qs] = get_elmat_time(q, qs)
    return _memo[q, qs]


def _der(p, n):
    for _ in range(n):
        p = np.polynomial.polynomial.polyder(p)
    return p


def check_forms(c):
    """v^T E u = int d^a v_h d^b u_h for random polynomials u_h, v_h on a random element [t0, t0+dt]."""
    from numpy.polynomial import polynomial as npp

    q, qs = c["q"], c["qs"]
    E = get(q, qs)
    for key in KEYS:
        require(key in E, f"element matrix {key} is missing")
        rows, a, cols, b = FACT[key]
        dr, dc = {"q": q, "qs": qs}[rows], {"q": q, "qs": qs}[cols]
        M = np.asarray(E[key], dtype=float)
        require(M.shape == (dr + 1, dc + 1), f"{key}({q},{qs}): shape {M.shape}")
        v, u = np.array(c["v"][: dr + 1], dtype=float), np.array(c["u"][: dc + 1], dtype=float)
        # u, v: power-series coefficients on [0,1]; nodal values by evaluation
        nodal = lambda p, d: npp.polyval(np.arange(d + 1) / d if d else np.array([0.5]), p)  # noqa: E731
        pv, pu = npp.polyval, _der(u, b)
        pw = npp.polymul(_der(v, a), pu)
        ref = pv(1.0, npp.polyint(pw))
        nv, nu = nodal(v, dr), nodal(u, dc)
        close(nv @ M @ nu, ref, 1e-12, f"{key}({q},{qs}) as an integral", scale=np.abs(nv) @ np.abs(M) @ np.abs(nu) + 1e-12)
    return Info(q + qs > 0 and any(c["u"]) and any(c["v"]), [f"q{q}q*{qs}"])


def check_repeat(c):
    """Entries are exact, and do not depend on the calls before (nor on what callers did with their results)."""
    from dxss.precomp_time_int import get_elmat_time

    for q, qs, mutate in c["calls"]:
        E = get_elmat_time(q, qs)
        ref = tm.matrices(q, qs)
        for key in KEYS:
            close(np.asarray(E[key], dtype=float), ref[key], 1e-13, f"{key}({q},{qs})", scale=1.0 + np.abs(ref[key]).max())
        if mutate:
            for key in list(E):
                E[key] *= -3.0
            E.clear()
    return Info(len(c["calls"]) > 1 or c["calls"][0][0] + c["calls"][0][1] > 0, [f"calls:{len(c['calls'])}"])


def forms():
    num = st.integers(-9, 9)
    return st.fixed_dictionaries({
        "q": st.integers(0, 3), "qs": st.integers(0, 3),
        "u": st.lists(num, min_size=4, max_size=4), "v": st.lists(num, min_size=4, max_size=4),
    })


def calls():
    small = st.tuples(st.integers(0, 1), st.integers(0, 1), st.booleans())
    wide = st.tuples(st.integers(0, 2), st.integers(0, 2), st.booleans())
    return st.fixed_dictionaries({"calls": st.one_of(st.lists(small, min_size=2, max_size=4), st.lists(wide, min_size=1, max_size=2))})


PROP = Prop("T01", [
    Sub("integrals", forms, check_forms, "degrees not both zero, both polynomials nonzero",
        quick=4000, thorough=48000, shards_quick=8, shards_thorough=4,
        always=[{"q": q, "qs": s, "u": [1, 2, -3, 5], "v": [2, -1, 4, 3]} for q in range(4) for s in range(4)]),
    Sub("entries", calls, check_repeat, "several calls, or degrees not both zero", quick=48, thorough=576,
        shards_quick=8, shards_thorough=8,
        always=[{"calls": [[q, s, True]]} for q in range(4) for s in range(4)]),
], assumptions=["degrees 0..3, the ones the package provides a basis for"])
