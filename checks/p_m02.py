"""M02: documented subdomains consist of whole cells, on every level."""
import numpy as np

from vh import mm
from vh.core import Info, Prop, Sub, require


def check(c):
    m = mm.module(c["api"] and c["gen"] in mm.HIER)
    meshes, d, _ = mm.generate(m, c)
    boxes = mm.FAM[c["gen"]][2](d)
    for j, msh in enumerate(meshes):
        what = f"{c['gen']}{d} mesh {j}"
        mm.check_boxes(msh, boxes, what)
        if c["gen"] == "inclusion":
            r = np.linalg.norm(msh._x[msh._cells], axis=2)
            ins, out = (r <= 1 + 1e-8).all(1), (r >= 1 - 1e-8).all(1)
            require(bool(np.all(ins | out)), f"{what}: a cell crosses the circle")
            v = mm.volumes(msh)
            h = mm.diameters(msh).max()
            disc = v[ins & (np.linalg.norm(msh._x[msh._cells].mean(axis=1), axis=1) < 1)].sum()
            require(np.pi - 1.2 * h * h <= disc <= np.pi, f"{what}: cells inside the disc cover {disc:.6g}, the disc {np.pi:.6g}")
    return Info(True, [c["gen"]])


def _always():
    base = {"s": 30, "n": 1, "order": 1, "eta": 20, "box": [3, 12, 6, 11], "api": False}
    out = [dict(base, gen=g) for g in sorted(mm.FAM)]
    out += [dict(base, gen=g, eta=e) for g in ("disc", "bottom", "square", "square_default") for e in (0, 45, 64)]
    return out


PROP = Prop("M02", [
    Sub("fitted", mm.cases, check, "every case has at least one interface", quick=672, thorough=8064, shards_quick=8,
        shards_thorough=8, always=_always()),
], assumptions=["gmsh is real; DOLFINx mesh creation, XDMF reading and refinement are the stand-in's",
                "the disc itself is judged by vertices and by area up to the chord error"])
