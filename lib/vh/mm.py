"""Mesh generators: what each promises, and geometric predicates on the meshes they return.

Nothing here looks at the generators' source: a family is a call, the documented domain, the
boxes that must consist of whole cells, and the range of its arguments.
"""
from __future__ import annotations

import importlib
import math
import sys
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from vh.core import HarnessError, require

UNIT, BIG = ((0.0, 0.0), (1.0, 1.0)), ((-1.5, -1.5), (1.5, 1.5))
CUBE = ((0.0, 0.0, 0.0), (1.0, 1.0, 1.0))
_STD = [((0.1, 0.25), (0.9, 0.95)), ((0.1, 0.95), (0.9, 1.0))]


def _disc_boxes(eta):
    return [((0, 0), (1, eta)), ((0, eta), (1, 1)), ((0.1, 0.25), (0.9, eta)), ((0.1, eta), (0.9, 0.95))]


def _bottom_boxes(eta):
    out = [((0, 0), (1, 0.25)), ((0.25, eta), (0.75, 0.9)), ((0.25, 0.9), (0.75, 1))]
    for a, b in ((0, 0.25), (0.25, 0.75), (0.75, 1)):
        out += [((a, 0.25), (b, eta)), ((a, eta), (b, 1))]
    return out


def _square_boxes(p):
    e = p["eta"]
    t = [((p["x_l"], p["y_l"]), (p["x_r"], min(e, p["y_r"])))]
    if e < p["y_r"]:
        t.append(((p["x_l"], e), (p["x_r"], p["y_r"])))
    t += [((-1.5, -1.5), (1.5, e)), ((-0.75, -0.75), (0.75, 0.75))]
    if e < 1.5:
        t.append(((-1.5, e), (1.5, 1.5)))
    return t


# name -> (call(module, case) -> list of meshes, domain, boxes(case), hmax/s bounds)
FAM = {
    "convex_one": (lambda m, c: [m.create_initial_mesh_convex(c["s"])], UNIT, lambda c: _STD),
    "convex": (lambda m, c: m.get_mesh_convex(c["n"], c["s"]), UNIT, lambda c: _STD),
    "hierarchy": (lambda m, c: m.get_mesh_hierarchy(c["n"], c["s"]), UNIT, lambda c: _STD),
    "nonconvex": (lambda m, c: m.get_mesh_hierarchy_nonconvex(c["n"], c["s"]), UNIT,
                  lambda c: [((0.25, 0.05), (0.75, 0.5)), ((0.125, 0.05), (0.875, 0.95))]),
    "disc": (lambda m, c: m.get_mesh_hierarchy_fitted_disc(c["n"], c["eta"], c["s"]), UNIT, lambda c: _disc_boxes(c["eta"])),
    "around": (lambda m, c: m.get_mesh_data_all_around(c["n"], c["s"]), UNIT, lambda c: [((0.2, 0.2), (0.8, 0.8))]),
    "bottom": (lambda m, c: [m.get_mesh_bottom_data(c["s"], c["eta"])], UNIT, lambda c: _bottom_boxes(c["eta"])),
    "inclusion": (lambda m, c: [m.get_mesh_inclusion(c["s"], c["order"])], BIG,
                  lambda c: [((-0.5, -0.5), (0.5, 0.5)), ((-1.25, -1.25), (1.25, 1.5))]),
    "square": (lambda m, c: [m.get_mesh_inclusion_square(c["s"], c["x_l"], c["x_r"], c["y_l"], c["y_r"], c["eta"])], BIG,
               _square_boxes),
    "square_default": (lambda m, c: [m.get_mesh_inclusion_square(h_init=c["s"], eta=c["eta"])], BIG,
                       lambda c: _square_boxes({"x_l": -1.25, "x_r": 1.25, "y_l": -1.25, "y_r": 1.25, "eta": c["eta"]})),
    "cube": (lambda m, c: m.get_3d_mesh_data_all_around(c["n"], c["s"]), CUBE, lambda c: [((0.2,) * 3, (0.8,) * 3)]),
}
HIER = ("hierarchy", "nonconvex", "disc", "around", "cube")
SQUARE_FILE = ("convex_one", "convex", "hierarchy", "nonconvex", "disc", "around")
HBOUND = {"cube": (0.06, 0.6)}
HBOUND.update({k: (0.06, 0.3) for k in ("convex_one", "convex", "hierarchy", "nonconvex", "disc", "around", "bottom")})
HBOUND.update({k: (0.2, 0.9) for k in ("inclusion", "square", "square_default")})


def decode(c):
    """Integers of the case -> arguments of the generator."""
    g = c["gen"]
    d = {"s": c["s"] / 20.0, "n": c["n"], "order": 1 + c["order"] % 3}
    u = c["eta"] / 64.0
    if g == "disc":
        d["eta"] = round(0.31 + u * 0.62, 4)
        if u in (0.0, 1.0):
            d["eta"] = 0.6
    elif g == "bottom":
        d["eta"] = round(0.28 + u * 0.59, 4)
    elif g in ("square", "square_default"):
        d["eta"] = 1.25 if c["eta"] == 0 else 1.5 if c["eta"] == 64 else round(-0.95 + u * 2.4, 4)
    if g == "square":
        a, b, e, f = (c["box"][i] / 16.0 for i in range(4))
        d["x_l"], d["x_r"] = round(-1.25 + a * 1.15, 4), round(0.1 + b * 1.15, 4)
        d["y_l"], d["y_r"] = round(-1.25 + e * 0.2, 4), round(-0.8 + f * 2.05, 4)
    if g == "cube":
        d["n"] = min(d["n"], 1 if d["s"] < 2.0 else 2 if d["s"] < 4.0 else 3)
        d["s"] = max(d["s"], 1.5) if d["n"] else max(d["s"], 0.4)
    if g == "convex":
        d["n"] = max(1, d["n"])
    if d["n"] > 3:  # many cells otherwise
        d["s"] = max(d["s"], 3.0)
    return d


def cases(gens=None, smin=14, smax=100, nmax=2):
    names = sorted(gens or FAM)
    return st.fixed_dictionaries({
        "gen": st.sampled_from(names), "s": st.integers(smin, smax), "n": st.integers(0, nmax), "order": st.integers(0, 2),
        "eta": st.integers(0, 64), "box": st.lists(st.integers(0, 16), min_size=4, max_size=4),
        "api": st.booleans()})


def module(api07=False):
    """dxss.meshes, imported against the DOLFINx 0.6 or 0.7 API of the stand-in."""
    from dolfinx import _engine as E

    alt = str(Path(__file__).resolve().parents[1] / "standin07")
    if alt in sys.path:
        sys.path.remove(alt)
    if api07:
        sys.path.insert(0, alt)
    importlib.invalidate_caches()
    E.config.version = "0.7.0" if api07 else "0.6.0"
    from importlib.metadata import version

    if version("fenics-dolfinx") != E.config.version:
        raise HarnessError(f"stand-in version {version('fenics-dolfinx')}")
    sys.modules.pop("dxss.meshes", None)
    return importlib.import_module("dxss.meshes")


def generate(m, c):
    """Meshes (a list, coarse to fine) of the case."""
    import gmsh

    d = decode(c)
    try:
        out = FAM[c["gen"]][0](m, d)
    finally:
        left = gmsh.isInitialized()
        if left:
            gmsh.finalize()
    out = list(out)
    for msh in out:
        require(hasattr(msh, "_cells"), f"{c['gen']}: returned {type(msh).__name__}, not meshes")
    return out, d, bool(left)


def volumes(msh):
    x = msh._x[msh._cells]
    return np.abs(np.linalg.det(x[:, 1:] - x[:, :1])) / math.factorial(x.shape[2])


def diameters(msh):
    x = msh._x[msh._cells]
    return np.sqrt(((x[:, :, None] - x[:, None]) ** 2).sum(-1)).max(axis=(1, 2))


def boxvol(b):
    return float(np.prod(np.subtract(b[1], b[0])))


def facet_counts(cells):
    """facets (sorted vertex tuples) and the number of cells each belongs to."""
    n = cells.shape[1]
    f = np.concatenate([np.sort(np.delete(cells, i, axis=1), axis=1) for i in range(n)])
    return np.unique(f, axis=0, return_counts=True)


def check_partition(msh, dom, what):
    """Cells are non-degenerate, conforming and tile the box `dom` exactly."""
    x, cells = msh._x, msh._cells
    d = x.shape[1]
    require(d == len(dom[0]) and cells.shape[1] == d + 1, f"{what}: cells with {cells.shape[1]} vertices in dimension {d}")
    require(len(cells) > 0 and np.all(np.isfinite(x)), f"{what}: empty mesh or non-finite points")
    require(len(np.unique(cells)) == len(x), f"{what}: vertices that belong to no cell")
    lo, hi = np.array(dom[0]), np.array(dom[1])
    tol = 1e-9
    require(bool(np.all(x >= lo - tol) and np.all(x <= hi + tol)), f"{what}: a vertex lies outside the domain")
    v, h = volumes(msh), diameters(msh)
    require(bool(np.all(v > 1e-7 * h**d)), lambda: f"{what}: degenerate cell, volume {v.min():.3e} at diameter {h[np.argmin(v)]:.3e}")
    require(len(np.unique(np.round(x, 10), axis=0)) == len(x), f"{what}: coinciding vertices")
    f, n = facet_counts(cells)
    require(int(n.max()) <= 2, f"{what}: a facet is shared by {int(n.max())} cells")
    b = x[f[n == 1]]  # (nb, d, d) boundary facets must lie on the boundary of the box
    onb = np.zeros(len(b), bool)
    for k in range(d):
        for w in (lo[k], hi[k]):
            onb |= np.all(np.abs(b[:, :, k] - w) < tol, axis=1)
    require(bool(onb.all()), lambda: f"{what}: the mesh ends inside the domain (hole or gap) near {b[~onb][0].mean(axis=0)}")
    tot = boxvol(dom)
    require(abs(v.sum() - tot) <= 1e-9 * tot, f"{what}: cells have total volume {v.sum():.12g}, the domain {tot:.12g}")


def check_boxes(msh, boxes, what):
    """Every box consists of whole cells."""
    x, v = msh._x[msh._cells], volumes(msh)
    for b in boxes:
        lo, hi = np.array(b[0]), np.array(b[1])
        ins = np.all((x >= lo - 1e-9) & (x <= hi + 1e-9), axis=(1, 2))
        got, want = float(v[ins].sum()), boxvol(b)
        require(abs(got - want) <= 1e-8 * max(want, 1e-3),
                f"{what}: cells cut the boundary of the subdomain {b[0]} x {b[1]}: whole cells cover {got:.10g} of {want:.10g}")


def canon(msh):
    """Vertex coordinates of all cells, order-independent."""
    x = msh._x[msh._cells]
    x = np.array([c[np.lexsort(c.T[::-1])] for c in x])
    flat = x.reshape(len(x), -1)
    return flat[np.lexsort(flat.T[::-1])]


def same_mesh(a, b, what):
    ca, cb = canon(a), canon(b)
    require(ca.shape == cb.shape, f"{what}: {len(ca)} cells instead of {len(cb)}")
    require(np.array_equal(ca, cb) or float(np.abs(ca - cb).max()) < 1e-9, f"{what}: cells differ")
