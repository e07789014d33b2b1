"""S10: two-level preconditioner and grid transfer."""
import copy

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vh import ref, stx
from vh.core import HarnessError, Info, Prop, Sub, close, require
from p_s01 import compare, labels
from p_s06 import Dense


def locate(S, pts):
    """cell index and reference coordinates; margin = distance to the cell boundary in reference units."""
    cells, refs, marg = [], [], []
    for p in pts:
        best = (-1e9, None, None)
        for e in range(S.nc):
            X = S._ref(e, p[None])[0]
            m = min(X.min(), (1 - X.max()) if S.box or S.d == 1 else 1 - X.sum())
            if m > best[0]:
                best = (m, e, X)
        if best[0] < -1e-8:
            raise HarnessError(f"point {p} outside the mesh")
        cells.append(best[1])
        refs.append(best[2])
        marg.append(best[0])
    return np.array(cells), np.array(refs), np.array(marg)


def transfer(Sfrom, Sto, k):
    """Nodal interpolation matrix between Lagrange spaces of degree k."""
    pts = Sto.nodes(k)
    e, X, _ = locate(Sfrom, pts)
    dm = Sfrom.dofs(k)[0]
    out = np.zeros((len(pts), Sfrom.ndof(k)))
    for i in range(len(pts)):
        out[i, dm[e[i]]] = Sfrom._basis(k, X[i : i + 1], 0, Sfrom.K[e[i]])[0]
    return out


def full(L, Lto, Ms):
    """Block matrix applying the spatial transfer of each field to every time level."""
    M = sp.lil_matrix((Lto.n, L.n))
    for f in range(4):
        for n in range(L.N):
            for i in range(L.nt[f]):
                M[np.ix_(Lto.idx(f, n, i), L.idx(f, n, i))] = Ms[L.kk[f]]
    return M.tocsr()


def setting(c):
    from dolfinx import fem

    from dxss.space_time import DataDomain

    coarse = stx.build_mesh(c["mesh"])
    fm = copy.deepcopy(c["mesh"])
    fm["n"] = [v * 2 for v in fm["n"]] if c["nested"] else [max(v, w) for v, w in zip(fm["n"], c["fine_n"])]
    if not c["nested"]:
        fm["jitter"] = 0.3
    fm["seed"] += 1
    fine = stx.build_mesh(fm)
    Sc = ref.Space(coarse)
    vc, fn = stx.indicator(c, coarse)
    c = {**c, "mesh": fm}
    Sf = ref.Space(fine)
    e, _, m1 = locate(Sc, Sf.midpoints())
    vf = vc[e]
    # the coarse problem interpolates the fine indicator
    e2, _, m2 = locate(Sf, Sc.midpoints())
    vcc = vc if c["nested"] else vf[e2]
    amb = m1.min() < 1e-6 or (not c["nested"] and m2.min() < 1e-6)
    if c["fitted"]:
        omega = DataDomain(indicator_function=fn, fitted=True)
    else:
        f = fem.Function(fem.FunctionSpace(fine, ("DG", 0)))
        f.interpolate(fn)
        omega = DataDomain(indicator_function=f, fitted=False)
    B = stx.build(c, mesh=fine, omega=omega)
    B.val = vf
    return c, B, coarse, Sc, vcc, amb


def check(c0):
    c, B, coarse, Sc, vcc, amb = setting(c0)
    if amb:
        return Info(False, ["ambiguous"])
    s = B.st
    s.get_spacetime_rhs()
    if c["prepare_first"]:
        s.prepare_precondition_gmres()
    if c["other"] and c["mesh"]["kind"] not in ("tetrahedron", "hexahedron"):  # an earlier coarse mesh leaves no traces
        om = copy.deepcopy(c0["mesh"])
        om["n"], om["jitter"] = [v % 3 + 1 for v in om["n"]], 0.0
        s.prepare_coarse_grid_correction(stx.build_mesh(om))
        if c["other"] > 1:
            s.set_solver_coarse(Dense(s.get_spacetime_matrix_coarse()))
            s.q_op(stx.vec(np.arange(B.L.n) * 1.0), stx.vec(B.L.n))
    s.prepare_coarse_grid_correction(coarse)
    Lc = ref.Layout(Sc, c["q"], c["qs"], c["k"], c["ks"], c["N"])
    pc, p = Lc.permutation(s.fes_coarse), stx.perm(B)
    n, m = B.L.n, Lc.n
    rng = np.random.default_rng(c["vseed"])
    # coarse matrix
    Ac = stx.csr(s.get_spacetime_matrix_coarse())
    Bc = stx.Built()
    Bc.L, Bc.L1 = Lc, Lc
    compare(Bc, Ac[pc][:, pc], ref.Form(Sc, Lc, stx.params(c, vcc)).build().total(), "coarse space-time matrix")
    # transfer
    ks = {c["k"], c["ks"]}
    P = full(Lc, B.L, {k: transfer(Sc, B.S, k) for k in ks})
    R = full(B.L, Lc, {k: transfer(B.S, Sc, k) for k in ks})
    for i in range(3):
        xc = rng.standard_normal(m)
        if i == 2:  # some time levels vanish
            for f in range(4):
                for lv in range(c["N"]):
                    for j in range(Lc.nt[f]):
                        if rng.random() < 0.5:
                            xc[Lc.idx(f, lv, j)] = 0.0
        vc_, vf_ = stx.vec(np.empty(m)), stx.vec(rng.standard_normal(n) * 1e3)
        vc_.array[:][:] = 0.0
        a = np.empty(m)
        a[pc] = xc
        vc_.array[:] = a
        s.prolongation(vc_, vf_)
        require(np.array_equal(vc_.array, a), "prolongation modified its input")
        close(np.array(vf_.array)[p], P @ xc, 1e-9, "prolongation", scale=np.abs(xc).max() * 10)
        xf = rng.standard_normal(n) if i else np.array(vf_.array)[p]
        a = np.empty(n)
        a[p] = xf
        vf_ = stx.vec(a)
        vc_ = stx.vec(rng.standard_normal(m) * 1e3)
        s.restriction(vc_, vf_)
        require(np.array_equal(vf_.array, a), "restriction modified its input")
        close(np.array(vc_.array)[pc], R @ xf, 1e-9, "restriction", scale=np.abs(xf).max() * 10)
        if not i and c["nested"]:
            close(np.array(vc_.array)[pc], xc, 1e-9, "restriction of a prolongated vector", scale=np.abs(xc).max() * 10)
    lab = labels(c) + ["nested" if c["nested"] else "independent"]
    if c["jumps"]:
        return Info(c["N"] > 1, [*lab, "transfer-only"])
    # two-level cycle: coarse correction, then the time-marching preconditioner on what remains
    s.prepare_precondition_gmres()
    s.set_solver_slab(Dense(s.get_slab_matrix()))
    s.set_solver_first_slab(Dense(s.get_slab_matrix_first_slab()))
    coarse_solver = Dense(s.get_spacetime_matrix_coarse())
    s.set_solver_coarse(coarse_solver)
    if np.linalg.cond(coarse_solver.M) > 1e8:  # rounding in the coarse solve would dominate the comparison
        return Info(c["N"] > 1, [*lab, "ill-conditioned", "transfer-only"])
    F = stx.form(B)
    A, Pm = F.total(), F.total(precond=True)
    kept = None
    for i in range(3):
        b = rng.standard_normal(n) * (1.0, c["amp"])[i] if i < 2 else kept[0]
        vb, out = stx.vec(b), stx.vec(rng.standard_normal(n) * 1e3)
        s.pre_twolvl(vb, out)
        require(np.array_equal(vb.array, b), "the input vector was modified")
        x = np.array(out.array)[p]
        require(np.isfinite(x).all(), "non-finite result")
        if i == 2:
            require(np.abs(x - kept[1]).max() <= 1e-12 * np.abs(x).max(), "the two-level preconditioner depends on earlier applications")
            break
        rb = (R @ b[p])
        a = np.empty(m)
        a[pc] = rb
        va, vo = stx.vec(a), stx.vec(m)
        coarse_solver.solve(va, vo)
        Q = P @ np.array(vo.array)[pc]
        rhs = b[p] - A @ Q
        # Pm (x - Q) must equal b - A Q
        r = np.abs(Pm @ (x - Q) - rhs)
        sc = (abs(Pm) @ (np.abs(x) + np.abs(Q)) + abs(A) @ np.abs(Q) + np.abs(b[p])).max()
        require(r.max() <= 1e-6 * sc + 1e-19, lambda: f"two-level cycle, application {i}: the remainder after the coarse correction is not "  # noqa: B023
                f"inverted by the time-marching preconditioner: off by {r.max():.3e} (scale {sc:.3e})")  # noqa: B023
        # coarse-grid operator on its own
        s.q_op(vb, out)
        close(np.array(out.array)[p], Q, 1e-6, "coarse-grid operator", scale=np.abs(Q).max() * 10 + 1e-300)
        if i == 0:
            kept = (b, x)
    return Info(c["N"] > 1, [*lab, "two-level"])


@st.composite
def cases(draw):
    c = draw(stx.cfgs(maxN=6, kmax=2, budget=230))
    c["nested"] = draw(st.sampled_from([True, True, False]))
    if c["nested"]:
        c["mesh"]["jitter"] = 0.0
    if c["mesh"]["kind"] in ("tetrahedron", "hexahedron"):
        c["mesh"]["n"] = [1, 1, 1]
        c["k"] = c["ks"] = 1
        c["q"], c["qs"] = min(c["q"], 1), min(c["qs"], 1)
    c["fine_n"] = [draw(st.integers(1, 3)) for _ in range(3)]
    if c["mesh"]["kind"] in ("tetrahedron", "hexahedron"):
        c["fine_n"] = c["fine_n"][:2] + [1]
    c["g"] = {k: min(1.0, max(v, 1e-2)) for k, v in c["g"].items()}
    c["vseed"] = draw(st.integers(0, 999))
    c["amp"] = draw(st.sampled_from([1.0, 1e-9, 1e-12, 1e8, 0.0]))
    c["prepare_first"] = draw(st.booleans())
    c["other"] = draw(st.sampled_from([0, 2, 1]))
    return c


GRID = stx.grid(12, lambda r: {"nested": r.random() < 0.7, "fine_n": [3, 3, 3], "amp": r.choice([1.0, 1e-9, 0.0]), "vseed": r.randrange(999),
                               "prepare_first": r.random() < 0.5, "other": r.choice([0, 1, 2])}, jumps=False, kmax=2, budget=230)
for _c in GRID:
    _c["g"] = {n: min(1.0, v) for n, v in _c["g"].items()}
    _c["mesh"]["jitter"] = 0.0 if _c["nested"] else _c["mesh"]["jitter"]


PROP = Prop("S10", [
    Sub("two-level", cases, check, "at least two slabs", quick=240, thorough=3000, shards_quick=8, shards_thorough=8, always=GRID),
], assumptions=["stand-in for DOLFINx (lib/standin)", "fine and coarse mesh cover the same domain; the right-hand side is "
                "assembled before the coarse correction is prepared"])
