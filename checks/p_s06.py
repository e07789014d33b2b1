"""S06: the time-marching preconditioner inverts the preconditioning matrix, slab by slab."""
import numpy as np
import scipy.linalg as sl
from hypothesis import strategies as st

from vh import stx
from vh.core import HarnessError, Info, Prop, Sub, require
from p_s01 import labels


class Dense:
    """A direct solver object with the interface the package expects."""

    def __init__(self, A):
        M = stx.csr(A).toarray()
        if not np.isfinite(M).all():
            raise HarnessError("matrix not finite")
        self.M = M
        self.lu = sl.lu_factor(M, check_finite=False)

    def solve(self, b, x):
        x.array[:] = sl.lu_solve(self.lu, np.array(b.array), check_finite=False)


def marching_matrix(B):
    """What the time-marching sweep inverts (reference numbering)."""
    F = stx.form(B)
    a = F.A
    if not B.c["jumps"]:
        return F.total(precond=True)
    # with forward jumps: the slab systems and the coupling to the previous slab, equation rows only
    L = B.L
    rows = np.zeros(L.n)
    rows[L.off[2]:] = 1.0
    import scipy.sparse as sp

    M = a["pde"] + a["data"] + a["dual"] + a["primal"] + a["pjump-pre"] + a["dualjump"] + sp.diags(rows) @ a["fwjump"]
    if B.c["wp"]:
        # the first slab is treated like the others, with zero values before it
        F1 = stx.slabform(B)
        M = M + a["initial"]
        M = M + first_slab_jump(B, F1)
    return M.tocsr()


def first_slab_jump(B, F1):
    import scipy.sparse as sp

    L, L1, S, c = B.L, B.L1, B.S, B.c
    Mx, Ms = S.cellmat(c["ks"], c["k"], 0, 0), S.cellmat(c["ks"], c["ks"], 0, 0)
    out = sp.lil_matrix((L.n, L.n))
    gd = c["g"]["dual"] * c["T"] / c["N"]
    for f, g in ((2, 1), (3, 0)):
        out[np.ix_(L.idx(f, 0, 0), L.idx(g, 0, 0))] = Mx.toarray()
        out[np.ix_(L.idx(f, 0, 0), L.idx(f, 0, 0))] = -gd * Ms.toarray()
    return out.tocsr()


def prepare(B):
    s = B.st
    s.prepare_precondition_gmres()
    s.set_solver_slab(Dense(s.get_slab_matrix()))
    s.set_solver_first_slab(Dense(s.get_slab_matrix_first_slab()))


def slab_of(B):
    """slab index per reference dof."""
    L = B.L
    out = np.empty(L.n, dtype=int)
    for f in range(4):
        for n in range(L.N):
            for i in range(L.nt[f]):
                out[L.idx(f, n, i)] = n
    return out


def check(c):
    from dxss.space_time import SpaceTimePETScPreconditionerWrapper

    B = stx.build(c)
    s = B.st
    prepare(B)
    n = B.L.n
    p = stx.perm(B)
    P = marching_matrix(B)
    slab = slab_of(B)
    rng = np.random.default_rng(c["vseed"])
    wrap = SpaceTimePETScPreconditionerWrapper(s)
    ops = {"plain": s.pre_time_marching}
    if not c["jumps"]:
        ops["improved"] = s.pre_time_marching_improved
        ops["wrapper"] = lambda b, x: wrap.apply(None, b, x)
    else:
        for name, f in (("improved", s.pre_time_marching_improved), ("wrapper", lambda b, x: wrap.apply(None, b, x))):
            try:
                f(stx.vec(rng.standard_normal(n)), stx.vec(n))
            except (ValueError, NotImplementedError):
                continue
            require(False, f"{name}: accepted a problem with forward jumps, which it does not support")
    absP = abs(P)
    growth = 0.0
    out = stx.vec(rng.standard_normal(n) * 1e3 if c["vseed"] % 3 else np.full(n, np.nan))
    kept = {}
    bs = [rng.standard_normal(n) * 10.0 ** int(rng.integers(*((-2, 3) if c["vseed"] % 4 else (-9, 10)))) for _ in range(2)]
    cut = int(rng.integers(0, c["N"]))
    cb = bs[0].copy()
    cb[p[slab >= cut]] += rng.standard_normal(int((slab >= cut).sum())) * np.abs(bs[0]).max()
    seq = [(0, bs[0]), (1, bs[1]), (4, 0 * cb), (2, cb), (3, bs[0])]
    for name in c["ops"]:
        if name not in ops:
            continue
        for i, b in seq:
            vb = stx.vec(b)
            ops[name](vb, out)
            require(np.array_equal(vb.array, b), f"{name}: the input vector was modified")
            x = np.array(out.array)[p]
            br = b[p]
            require(np.isfinite(x).all(), f"{name}: non-finite result")
            r = np.abs(P @ x - br)
            row = absP @ np.abs(x) + np.abs(br)
            for m in range(c["N"]):
                sel = slab == m
                sc = row[sel].max()
                require(r[sel].max() <= 1e-9 * sc + 1e-19, lambda: f"{name}, application {i}: preconditioning matrix times result "  # noqa: B023
                        f"differs from the input by {r[sel].max():.3e} in slab {m} of {c['N']} (scale {sc:.3e})")  # noqa: B023
            growth = max(growth, row.max() / np.abs(br).max()) if i != 4 else growth
            kept[name, i] = x
        same = kept[name, 3] - kept[name, 0]
        require(np.abs(same).max() <= 1e-12 * np.abs(kept[name, 0]).max(), f"{name}: depends on earlier applications")
        early = slab < cut
        if early.any():
            d = np.abs(kept[name, 2] - kept[name, 0])[early].max()
            require(d <= 1e-12 * np.abs(kept[name, 0][early]).max(),
                    f"{name}: data of slab {cut} changes the result in an earlier slab by {d:.3e}")
    return Info(c["N"] > 1 and growth < 1e9, labels(c) + (["ill-conditioned"] if growth >= 1e9 else []))


@st.composite
def cases(draw):
    c = draw(stx.cfgs(budget=1100))
    c["vseed"] = draw(st.integers(0, 999))
    c["ops"] = draw(st.sampled_from([["plain", "improved"], ["improved", "plain"], ["wrapper", "plain", "improved"], ["improved", "plain", "improved"]]))
    return c


PROP = Prop("S06", [
    Sub("inverse", cases, check, "at least two slabs and a solution at most 1e9 times larger than the input",
        quick=288, thorough=4000, shards_quick=8, shards_thorough=8,
        always=stx.grid(8, lambda r: {"vseed": r.randrange(999), "ops": ["improved", "plain", "wrapper", "improved"]})),
], assumptions=["stand-in for DOLFINx (lib/standin)", "slab systems are solved by dense LU"])
