"""S02: symmetric saddle-point structure of the assembled system."""
import numpy as np

from vh import stx
from vh.core import Info, Prop, Sub, require
from p_s01 import labels


def check(c):
    B = stx.build(c)
    M = stx.csr(B.st.get_spacetime_matrix())
    require(M.shape == (B.L.n, B.L.n), f"matrix of size {M.shape} for {B.L.n} unknowns")
    sc = abs(M).max()
    d = abs(M - M.T).max()
    require(d <= 1e-12 * sc, lambda: f"the assembled matrix is not symmetric: |A - A^T| = {d:.3e} (|A| = {sc:.3e})")
    A = stx.to_ref(B, M).toarray()
    o = B.L.off
    uu, zz = A[: o[2], : o[2]], A[o[2]:, o[2]:]
    eu, ez = np.linalg.eigvalsh((uu + uu.T) / 2), np.linalg.eigvalsh((zz + zz.T) / 2)
    require(eu[0] >= -1e-11 * max(abs(eu[-1]), abs(eu[0])) , f"primal block has the negative eigenvalue {eu[0]:.3e} (largest {eu[-1]:.3e})")
    require(ez[-1] < 1e-11 * max(abs(ez[0]), abs(ez[-1])), f"dual block has the positive eigenvalue {ez[-1]:.3e} (smallest {ez[0]:.3e})")
    dt = c["T"] / c["N"]
    # the dual block dominates the weighted mass matrix: -(z, z) >= gamma dt M
    from vh import tm

    Mt = tm.matrices(c["q"], c["qs"])["M_time_qstar_qstar"]
    Mx = B.S.cellmat(c["ks"], c["ks"], 0, 0).toarray()
    low = c["g"]["dual"] * dt * np.linalg.eigvalsh(Mt)[0] * np.linalg.eigvalsh(Mx)[0]
    require(-ez[-1] >= 0.999 * low - 1e-12 * abs(ez[0]),
            f"dual stabilisation too weak: smallest |eigenvalue| {-ez[-1]:.3e} < {low:.3e}")
    # unknowns of different slabs are coupled only if the slabs are neighbours
    from p_s06 import slab_of

    sl = slab_of(B)
    far = np.abs(sl[:, None] - sl[None, :]) > 1
    if far.any():
        m = np.abs(A[far]).max()
        require(m <= 1e-13 * sc, lambda: f"slabs that are not neighbours are coupled by an entry of size {m:.3e}")
    if not c["jumps"]:
        for name, S in (("slab matrix", B.st.get_slab_matrix()), ("matrix of the first slab", B.st.get_slab_matrix_first_slab())):
            S = stx.to_ref(B, stx.csr(S)).toarray()
            require(S.shape == (B.L1.n, B.L1.n), f"{name}: size {S.shape}")
            d = np.abs(S - S.T).max()
            require(d <= 1e-12 * np.abs(S).max(), lambda: f"the {name} is not symmetric: off by {d:.3e}")  # noqa: B023
            m = B.L1.off[2]
            eu, ez = np.linalg.eigvalsh(S[:m, :m]), np.linalg.eigvalsh(S[m:, m:])
            require(eu[0] >= -1e-11 * np.abs(eu).max() and ez[-1] < 1e-11 * np.abs(ez).max(),
                    lambda: f"{name}: primal block from {eu[0]:.3e}, dual block up to {ez[-1]:.3e}")  # noqa: B023
    return Info(c["N"] > 1, labels(c))


PROP = Prop("S02", [
    Sub("saddle-point", lambda: stx.cfgs(budget=700), check, "at least two slabs",
        quick=216, thorough=3000, shards_quick=8, shards_thorough=8, always=stx.grid(4)),
], assumptions=["stand-in for DOLFINx (lib/standin)"])
