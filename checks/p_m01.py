"""M01: generated meshes tile their domain with conforming, non-degenerate cells."""
import numpy as np
from hypothesis import strategies as st

from vh import mm
from vh.core import Info, Prop, Sub, require


def check_tiling(c):
    api = c["api"] and c["gen"] in mm.HIER
    m = mm.module(api)
    meshes, d, _ = mm.generate(m, c)
    dom = mm.FAM[c["gen"]][1]
    lo, hi = mm.HBOUND[c["gen"]]
    require(len(meshes) > 0, f"{c['gen']}: no mesh")
    for j, msh in enumerate(meshes):
        what = f"{c['gen']}{d} mesh {j}"
        mm.check_partition(msh, dom, what)
        s = d["s"] / (2**j)
        h = mm.diameters(msh).max()
        # gmsh lets the size factor govern only as long as the geometry does not
        if s <= 1.0:
            require(lo * s <= h <= hi * s, f"{what}: largest cell {h:.4g} at size factor {s:.4g}")
        else:
            require(h <= hi * s, f"{what}: largest cell {h:.4g} at size factor {s:.4g}")
    return Info(len(meshes[0]._cells) >= 20, [c["gen"]])


def check_size(c):
    """Halving the size factor: more and smaller cells."""
    m = mm.module()
    a = dict(c, n=0 if c["gen"] != "convex" else 1)
    f = c["shrink"] / 10.0
    if c["gen"] == "cube":
        a["s"], f = 16 + c["s"] // 2, max(f, 0.5)
    s2 = max(1, int(round(a["s"] * f)))
    b = dict(a, s=s2)
    ma, mb = mm.generate(m, a)[0][0], mm.generate(m, b)[0][0]
    ra, rb = mm.decode(a)["s"], mm.decode(b)["s"]
    ha, hb = mm.diameters(ma), mm.diameters(mb)
    what = f"{c['gen']} size factor {ra} -> {rb}"
    require(len(mb._cells) > len(ma._cells), f"{what}: {len(ma._cells)} -> {len(mb._cells)} cells")
    require(hb.mean() < 1.02 * ha.mean() and hb.max() < 1.25 * ha.max(),
            f"{what}: mean cell {ha.mean():.4g} -> {hb.mean():.4g}, largest {ha.max():.4g} -> {hb.max():.4g}")
    return Info(ra != rb, [c["gen"]])


_T = 1 / 3
NODES = {  # DOLFINx node order of the triangle: vertices, edges (1,2), (0,2), (0,1), interior
    1: np.array([[0, 0], [1, 0], [0, 1]], float),
    2: np.array([[0, 0], [1, 0], [0, 1], [0.5, 0.5], [0, 0.5], [0.5, 0]]),
    3: np.array([[0, 0], [1, 0], [0, 1], [2 * _T, _T], [_T, 2 * _T], [0, _T], [0, 2 * _T], [_T, 0], [2 * _T, 0], [_T, _T]]),
}


def check_curved(c):
    """Inclusion meshes of order 1 to 3: valid higher-order cells in the documented node order, curved along the circle."""
    m = mm.module()
    msh, d, _ = mm.generate(m, dict(c, gen="inclusion"))
    msh = msh[0]
    o = d["order"]
    what = f"get_mesh_inclusion(h={d['s']}, order={o})"
    require(msh._ho_degree == o, f"{what}: cells of degree {msh._ho_degree}")
    X, cells = msh._ho_x, msh._ho_cells
    require(len(np.unique(cells)) == len(X), f"{what}: unused nodes")
    ref = NODES[o]
    mono = [(i, j) for i in range(o + 1) for j in range(o + 1 - i)]
    C = np.linalg.inv(np.array([[p[0] ** i * p[1] ** j for i, j in mono] for p in ref]))
    lam = np.column_stack([1 - ref.sum(1), ref])
    V = X[cells[:, :3]]
    straight = np.einsum("nv,cvg->cng", lam, V)
    dev = np.linalg.norm(X[cells] - straight, axis=2)
    h = mm.diameters(msh)
    r = np.linalg.norm(V, axis=2)
    on = np.abs(r - 1) < 1e-8
    curved = on.sum(1) >= 2
    require(bool(np.all(dev[~curved] < 1e-8)), f"{what}: higher-order nodes of a straight cell are not at the node positions of the cell")
    require(bool(np.all(dev[curved] < 0.3 * h[curved, None] ** 2 + 1e-9)), f"{what}: higher-order nodes out of order")
    require(int(curved.sum()) >= 3, f"{what}: no cells along the circle")
    inside, outside = (r <= 1 + 1e-8).all(1), (r >= 1 - 1e-8).all(1)
    require(bool(np.all(inside | outside)), f"{what}: a cell crosses the circle")
    # nodes on the arc
    if o > 1:
        for a, b in ((0, 1), (0, 2), (1, 2)):
            both = on[:, a] & on[:, b]
            third = 3 - a - b
            edge_nodes = [i for i in range(len(ref)) if i > 2 and abs(lam[i, third]) < 1e-12]
            if both.any():
                # the edge between two circle vertices is an arc of the circle
                rr = np.linalg.norm(X[cells[both][:, edge_nodes]], axis=2)
                require(bool(np.all(np.abs(rr - 1) < 5e-3)), f"{what}: edge nodes of the inclusion boundary are {np.abs(rr - 1).max():.2e} off the circle")
    # positive Jacobian at many points
    g = np.array([[i / 6, j / 6] for i in range(7) for j in range(7 - i)])
    dx = np.array([[i * p[0] ** max(i - 1, 0) * p[1] ** j for i, j in mono] for p in g]) @ C
    dy = np.array([[j * p[0] ** i * p[1] ** max(j - 1, 0) for i, j in mono] for p in g]) @ C
    P = X[cells]
    J = np.stack([np.einsum("pn,cng->cpg", dx, P), np.einsum("pn,cng->cpg", dy, P)], axis=3)
    det = J[..., 0, 0] * J[..., 1, 1] - J[..., 0, 1] * J[..., 1, 0]
    sg = np.sign(det[:, :1])
    require(bool(np.all(det * sg > 0)), f"{what}: a curved cell is folded")
    return Info(o > 1, [f"order{o}"])



def size_cases():
    return st.tuples(mm.cases(smin=10, smax=40, nmax=0), st.integers(3, 6)).map(lambda t: dict(t[0], shrink=t[1]))


def _always():
    base = {"s": 20, "n": 1, "order": 1, "eta": 32, "box": [0, 16, 0, 16], "api": False}
    out = [dict(base, gen=g) for g in sorted(mm.FAM)]
    out += [dict(base, gen="square_default", eta=e) for e in (0, 60, 64)]
    out += [dict(base, gen="square", eta=e, box=[5, 9, 8, 10]) for e in (20, 60, 64)]
    out += [dict(base, gen=g, api=True) for g in mm.HIER]
    out += [dict(base, gen="inclusion", order=o) for o in (0, 2)]
    return out


PROP = Prop("M01", [
    Sub("tiling", mm.cases, check_tiling, "coarsest mesh has at least 20 cells", quick=432, thorough=5184,
        shards_quick=8, shards_thorough=8, always=_always()),
    Sub("size_factor", size_cases, check_size, "the two size factors differ", quick=144, thorough=1728, shards_quick=8, shards_thorough=8,
        always=[{"gen": g, "s": s, "n": 1, "order": 1, "eta": 32, "box": [0, 16, 0, 16], "api": False, "shrink": 5} for g in sorted(mm.FAM) for s in (14, 40, 100)]),
    Sub("curved", lambda: mm.cases(["inclusion"], smin=4, smax=40, nmax=0), check_curved, "order 2 or 3", quick=96,
        thorough=1152, shards_quick=8, shards_thorough=4),
], assumptions=["gmsh is real; DOLFINx mesh creation, XDMF reading and refinement are the stand-in's",
                "curved cells are judged for size factors up to 2; beyond 2.1 gmsh warns that it could not curve them validly"])
