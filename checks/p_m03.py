"""M03: hierarchies are nested uniform refinements; the convex family halves the size factor."""
import numpy as np
import scipy.spatial as ss

from vh import mm
from vh.core import Info, Prop, Sub, require


def parents(coarse, pts):
    """A coarse cell containing each point, or -1."""
    near = min(16, len(coarse._cells))
    _, cand = ss.cKDTree(coarse._x[coarse._cells].mean(axis=1)).query(pts, k=near)
    cand = cand.reshape(len(pts), near)
    X = np.einsum("ncgh,nch->ncg", coarse._K[cand], pts[:, None] - coarse._v0[cand])
    m = np.minimum(X.min(axis=2), 1 - X.sum(axis=2))
    best = m.argmax(axis=1)
    rows = np.arange(len(pts))
    out = np.where(m[rows, best] >= -1e-8, cand[rows, best], -1)
    if (out < 0).any():  # a cell whose midpoint is not among the nearest ones
        out[out < 0] = coarse._locate_cell(pts[out < 0])
    return out


def nested(coarse, fine, what):
    d = coarse._x.shape[1]
    k = 2**d
    require(len(fine._cells) == k * len(coarse._cells),
            f"{what}: {len(coarse._cells)} cells become {len(fine._cells)}, not {k} times as many")
    # each fine cell lies in exactly one coarse cell, which it fills to 1/2^d
    mid = fine._x[fine._cells].mean(axis=1)
    parent = parents(coarse, mid)
    require(bool(np.all(parent >= 0)), f"{what}: a fine cell lies outside the coarse mesh")
    cnt = np.bincount(parent, minlength=len(coarse._cells))
    require(bool(np.all(cnt == k)), lambda: f"{what}: coarse cell {int(np.argmax(cnt != k))} holds {int(cnt[np.argmax(cnt != k)])} fine cells, not {k}")
    X = np.einsum("ntg,nqg->nqt", coarse._K[parent], fine._x[fine._cells] - coarse._v0[parent][:, None, :])
    low = min(X.min(), (1 - X.sum(2)).min())
    require(low > -1e-8, f"{what}: a fine cell sticks out of its coarse cell")
    vc, vf = mm.volumes(coarse), mm.volumes(fine)
    require(bool(np.allclose(vf, vc[parent] / k, rtol=1e-8)), f"{what}: refinement is not uniform")


def check_hierarchy(c):
    m = mm.module(c["api"])
    meshes, d, _ = mm.generate(m, c)
    what = f"{c['gen']}(n_ref={d['n']}, size {d['s']})"
    require(len(meshes) == d["n"] + 1, f"{what}: {len(meshes)} meshes instead of {d['n'] + 1}")
    require(len({id(x) for x in meshes}) == len(meshes), f"{what}: the same mesh twice")
    for j in range(d["n"]):
        nested(meshes[j], meshes[j + 1], f"{what} level {j}")
    first = mm.generate(m, dict(c, n=0, s=round(d["s"] * 20)))[0] if c["gen"] != "cube" or d["n"] == 0 else None
    if first is not None:
        mm.same_mesh(meshes[0], first[0], f"{what}: coarsest mesh against the unrefined one")
    return Info(d["n"] >= 1, [c["gen"], f"n={d['n']}", "0.7" if c["api"] else "0.6"])


def check_convex(c):
    m = mm.module()
    meshes, d, _ = mm.generate(m, dict(c, gen="convex"))
    what = f"get_mesh_convex({d['n']}, {d['s']})"
    require(len(meshes) == d["n"], f"{what}: {len(meshes)} meshes")
    for j, msh in enumerate(meshes):
        mm.same_mesh(msh, m.create_initial_mesh_convex(init_h_scale=d["s"] / 2**j), f"{what} mesh {j} against a mesh of size factor {d['s'] / 2 ** j}")
    return Info(d["n"] >= 2, [f"n={d['n']}"])


def _always():
    base = {"s": 40, "n": 2, "order": 1, "eta": 20, "box": [0, 16, 0, 16], "api": False}
    return [dict(base, gen=g, n=n, api=a) for g in mm.HIER for n in (0, 1, 2) for a in (False, True)] + [
        dict(base, gen="cube", s=80, n=2)] + [dict(base, gen=g, s=100, n=n) for g in mm.HIER if g != "cube" for n in (3, 4, 5)]


PROP = Prop("M03", [
    Sub("nested", lambda: mm.cases(mm.HIER, smin=24, nmax=5), check_hierarchy, "at least one refinement", quick=160,
        thorough=1920, shards_quick=8, shards_thorough=8, always=_always()),
    Sub("convex_family", lambda: mm.cases(["convex"], smin=24, nmax=5), check_convex, "at least two meshes", quick=48,
        thorough=576, shards_quick=8, shards_thorough=4, always=[{"gen": "convex", "s": 100, "n": 5, "order": 1, "eta": 20, "box": [0, 16, 0, 16], "api": False}]),
], assumptions=["uniform refinement of a marked mesh is the stand-in's; which edges and meshes are refined is the code's"])
