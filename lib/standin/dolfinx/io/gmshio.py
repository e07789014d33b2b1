from __future__ import annotations

import numpy as np
import ufl

from dolfinx import _engine as E
from dolfinx.mesh import MeshTags, _mk

_GMSH = {  # gmsh element type -> (cell, degree)
    1: ("interval", 1), 8: ("interval", 2), 2: ("triangle", 1), 9: ("triangle", 2), 21: ("triangle", 3),
    4: ("tetrahedron", 1), 11: ("tetrahedron", 2), 3: ("quadrilateral", 1), 10: ("quadrilateral", 2),
    5: ("hexahedron", 1), 15: ("point", 0),
}


def ufl_mesh(gmsh_cell, gdim):
    cell, degree = _GMSH[int(gmsh_cell)]
    c = ufl.Cell(cell, geometric_dimension=gdim)
    return ufl.Mesh(ufl.VectorElement(ufl.FiniteElement("Lagrange", c, degree), dim=gdim))


def cell_perm_array(cell_type, num_nodes):
    from dolfinx.cpp.io import perm_gmsh

    return perm_gmsh(cell_type, num_nodes)


def model_to_mesh(model, comm, rank, gdim=3, partitioner=None, dtype=float):
    """Mesh of the entities in the physical groups of the highest dimension present."""
    idx, pts, _ = model.mesh.getNodes()
    pts = np.asarray(pts).reshape(-1, 3)
    pos = np.full(int(idx.max()) + 1, -1)
    pos[np.asarray(idx, int)] = np.arange(len(idx))
    groups = model.getPhysicalGroups()
    if not groups:
        raise RuntimeError("no physical groups in the model")
    topo, marks = {}, {}
    for dim, tag in groups:
        for ent in model.getEntitiesForPhysicalGroup(dim, tag):
            etypes, _etags, enodes = model.mesh.getElements(dim, tag=ent)
            if len(etypes) == 0:
                raise RuntimeError("physical group entity without elements")
            assert len(etypes) == 1
            nn = model.mesh.getElementProperties(etypes[0])[3]
            c = pos[np.asarray(enodes[0], int).reshape(-1, nn)]
            topo.setdefault(int(etypes[0]), []).append(c)
            marks.setdefault(int(etypes[0]), []).append(np.full(len(c), tag))
    best = max(topo, key=lambda t: E.CELLS[_GMSH[t][0]]["tdim"] if _GMSH[t][0] != "point" else 0)
    cell, deg = _GMSH[best]
    if deg != 1:
        raise E.StandinUnsupported("higher-order gmsh meshes")
    mesh = _mk(comm, cell, np.vstack(topo[best]), pts[:, :gdim])
    tdim = E.CELLS[cell]["tdim"]
    ct = MeshTags(mesh, tdim, np.arange(len(mesh._cells)), np.concatenate(marks[best]))
    ft = None
    for t in topo:
        if _GMSH[t][0] != "point" and E.CELLS[_GMSH[t][0]]["tdim"] == tdim - 1:
            v = np.concatenate(marks[t])
            ft = MeshTags(mesh, tdim - 1, np.arange(len(v)), v)
    return mesh, ct, ft


def read_from_msh(filename, comm, rank=0, gdim=3, partitioner=None):
    import gmsh

    gmsh.initialize()
    gmsh.model.add("Mesh from file")
    gmsh.merge(str(filename))
    out = model_to_mesh(gmsh.model, comm, rank, gdim=gdim)
    gmsh.finalize()
    return out
