"""M05: the mesh files written beside the run describe the returned mesh, its subdomains and its boundary."""
import os

import numpy as np

from vh import mm
from vh.core import Info, Prop, Sub, require

GENS = mm.SQUARE_FILE


def _pieces(c, d):
    """(name, membership of points strictly inside) for the documented subdomains; they partition the square."""
    def box(p, a, b):
        return (p[:, 0] > a[0]) & (p[:, 0] < b[0]) & (p[:, 1] > a[1]) & (p[:, 1] < b[1])

    g = c["gen"]
    if g in ("convex_one", "convex", "hierarchy"):
        t = ("target", lambda p: box(p, (0.1, 0.25), (0.9, 0.95)))
        r = ("strip above the target", lambda p: box(p, (0.1, 0.95), (0.9, 1)))
        return [t, r, ("data domain", lambda p: ~t[1](p) & ~r[1](p))], [2, 3, 1]
    if g == "nonconvex":
        o = ("data domain", lambda p: box(p, (0.25, 0.05), (0.75, 0.5)))
        b = ("target", lambda p: box(p, (0.125, 0.05), (0.875, 0.95)) & ~o[1](p))
        return [o, b, ("rest", lambda p: ~o[1](p) & ~b[1](p))], [1, 2, 3]
    if g == "around":
        i = ("interior", lambda p: box(p, (0.2, 0.2), (0.8, 0.8)))
        return [i, ("data domain", lambda p: ~i[1](p))], None
    return None, None


def check(c):
    import meshio

    for f in ("mesh.msh", "mesh.xdmf", "mesh.h5", "mt.xdmf", "mt.h5"):
        if os.path.exists(f):
            os.remove(f)
    m = mm.module(c["api"] and c["gen"] in mm.HIER)
    meshes, d, _ = mm.generate(m, c)
    what = f"{c['gen']}{d}"
    coarse = meshes[-1] if c["gen"] == "convex" else meshes[0]
    require(os.path.isfile("mesh.xdmf"), f"{what}: mesh.xdmf not written")
    mesh = meshio.read("mesh.xdmf")
    tri = mesh.get_cells_type("triangle")
    pts = np.asarray(mesh.points)[:, :2]
    a = np.array([x[np.lexsort(x.T[::-1])] for x in pts[tri]]).reshape(len(tri), -1)
    a = a[np.lexsort(a.T[::-1])]
    b = mm.canon(coarse)
    require(a.shape == b.shape and float(np.abs(a - b).max()) < 1e-9, f"{what}: mesh.xdmf does not hold the returned mesh")
    if c["gen"] not in GENS:
        return Info(True, [c["gen"]])
    data = np.asarray(mesh.cell_data_dict["name_to_read"]["triangle"]) if "name_to_read" in mesh.cell_data_dict else None
    require(data is not None and len(data) == len(tri), f"{what}: no cell markers in mesh.xdmf")
    mid = pts[tri].mean(axis=1)
    pieces, want = _pieces(c, d)
    if pieces:
        seen = []
        for k, (name, f) in enumerate(pieces):
            vals = set(data[f(mid)].tolist())
            require(len(vals) == 1, f"{what}: {name} carries the markers {sorted(vals)}")
            v = vals.pop()
            require(v not in seen, f"{what}: {name} shares its marker {v} with another subdomain")
            seen.append(v)
            if want:
                require(v == want[k], f"{what}: {name} has marker {v}, not {want[k]}")
    else:
        require(np.all(data >= 1), f"{what}: unmarked cells")
    require(os.path.isfile("mt.xdmf"), f"{what}: mt.xdmf not written")
    mt = meshio.read("mt.xdmf")
    lines = np.asarray(mt.points)[:, :2][mt.get_cells_type("line")]
    got = sorted(tuple(sorted(map(tuple, np.round(e, 8)))) for e in lines)
    f, n = mm.facet_counts(coarse._cells)
    ref = sorted(tuple(sorted(map(tuple, np.round(e, 8)))) for e in coarse._x[f[n == 1]])
    require(got == ref, f"{what}: mt.xdmf holds {len(got)} boundary edges, the mesh has {len(ref)}"
            + ("" if len(got) != len(ref) else ", not the same"))
    marks = set(np.concatenate([np.asarray(v).ravel() for v in mt.cell_data["name_to_read"]]).tolist())
    require(marks == {1}, f"{what}: boundary markers {marks}")
    return Info(True, [c["gen"]])


def _always():
    base = {"s": 30, "n": 1, "order": 0, "eta": 20, "box": [3, 12, 6, 11], "api": False}
    return [dict(base, gen=g) for g in (*GENS, "bottom", "square", "square_default", "inclusion")]


def cases():
    return mm.cases([*GENS, "bottom", "square", "square_default", "inclusion"], smin=14, nmax=2).map(
        lambda c: dict(c, order=0) if c["gen"] == "inclusion" else c)


PROP = Prop("M05", [
    Sub("files", cases, check, "every case", quick=384, thorough=4608, shards_quick=8, shards_thorough=8, always=_always()),
], assumptions=["gmsh and meshio are real; the XDMF writer of the inclusion and bottom-data meshes is the stand-in's"])
