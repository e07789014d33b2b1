"""S03: the matrix-free operator equals the assembled matrix."""
import numpy as np
from hypothesis import strategies as st

from vh import stx
from vh.core import Info, Prop, Sub, require
from p_s01 import labels


def check(c):
    from dxss.space_time import SpaceTimePETScMatrixWrapper

    B = stx.build(c)
    s = B.st
    early = c["matrix_first"]
    if early:
        A = stx.csr(s.get_spacetime_matrix())
    s.prepare_precondition_gmres()
    if not early:
        A = stx.csr(s.get_spacetime_matrix())
    n = B.L.n
    rng = np.random.default_rng(c["vseed"])
    p = stx.perm(B)
    if c["jumps"]:
        # listed finding: the two groups of terms only present with jumps in the forward problem are missing
        F = stx.form(B)
        miss = np.zeros((n, n)) if n < 1 else (F.A["fwjump"] + F.A["dualjump"])
        inv = np.argsort(p)
        A = A - miss.tocsr()[inv][:, inv]
    # must be overwritten
    out = stx.vec(rng.standard_normal(n) * 1e6 if c["vseed"] % 3 else np.full(n, np.nan))
    wrap = SpaceTimePETScMatrixWrapper(s)
    kept = None
    for i in range(3):
        x = rng.standard_normal(n) * 10.0 ** rng.integers(*((-3, 4) if c["vseed"] % 4 else (-12, 13)))
        if i == 1:  # a single time level of a single field
            f = int(rng.integers(0, 4))
            sel = B.L.idx(f, int(rng.integers(0, c["N"])), int(rng.integers(0, B.L.nt[f])))
            y = np.zeros(n)
            y[p[sel]] = x[p[sel]]
            x = y
        vx = stx.vec(x)
        if i == 2:
            wrap.mult(None, vx, out)
        else:
            s.apply_spacetime_matrix(vx, out)
        require(np.array_equal(vx.array, x), "the input vector was modified")
        want = A @ x
        got = np.array(out.array)
        sc = np.abs(abs(A) @ np.abs(x)).max()
        d = np.abs(got - want)
        require(np.isfinite(got).all() and d.max() <= 1e-11 * sc,
                lambda: f"matrix-free product differs from the assembled matrix by {d.max():.3e} (scale {sc:.3e}) in "
                        f"{describe(B, int(np.argmax(d)))}, product {i}")
        if kept is None:
            kept = (x, got)
    # the same vector objects again, with other contents of the same size
    vx.array[:] = np.roll(x, 1) if c["vseed"] % 2 else -x
    want = A @ np.array(vx.array)
    wrap.mult(None, vx, out)
    require(np.abs(out.array - want).max() <= 1e-11 * sc * (10 if c["vseed"] % 2 else 1), "the product with a vector whose entries have been changed is wrong")
    wrap.mult(None, stx.vec(n), out)
    require(not np.any(out.array), "the product with the zero vector is not zero")
    s.apply_spacetime_matrix(stx.vec(kept[0]), out)
    require(np.allclose(out.array, kept[1], rtol=0, atol=1e-12 * np.abs(kept[1]).max()), "the first product is not repeatable")
    return Info(c["N"] > 1, labels(c))


def describe(B, i):
    p = stx.perm(B)
    r = int(np.where(p == i)[0][0])
    f = int(np.searchsorted(B.L.off, r, side="right") - 1)
    t = (r - B.L.off[f]) // B.L.ns[f]
    return f"row of {('w1', 'w2', 'y1', 'y2')[f]}, slab {t // B.L.nt[f]}, time node {t % B.L.nt[f]}"


@st.composite
def cases(draw):
    c = draw(stx.cfgs())
    c["vseed"] = draw(st.integers(0, 999))
    c["matrix_first"] = draw(st.booleans())
    return c


PROP = Prop("S03", [
    Sub("product", cases, check, "at least two slabs", quick=288, thorough=4000, shards_quick=8, shards_thorough=8,
        always=stx.grid(5, lambda r: {"vseed": r.randrange(999), "matrix_first": r.random() < 0.5})),
], assumptions=["stand-in for DOLFINx (lib/standin)",
                "with jumps in the forward problem the product is compared with the assembled matrix minus exactly the "
                "forward-jump and dual-jump terms (see KNOWN_FINDINGS.txt)"])
