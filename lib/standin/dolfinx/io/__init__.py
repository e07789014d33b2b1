"""XDMF through meshio (same file names and extensions as DOLFINx)."""
from __future__ import annotations

import numpy as np

from dolfinx import _engine as E
from dolfinx.io import gmshio  # noqa: F401
from dolfinx.mesh import GhostMode, MeshTags, _mk

_MESHIO = {"interval": "line", "triangle": "triangle", "tetrahedron": "tetra",
           "quadrilateral": "quad", "hexahedron": "hexahedron"}


class XDMFFile:
    def __init__(self, comm, filename, file_mode, *_a, **_k):
        self.comm, self.filename, self.mode = comm, str(filename), file_mode
        if file_mode not in ("r", "w", "a"):
            raise RuntimeError("Invalid file mode")
        self._mesh, self._point_data = None, {}
        self._open = True
        if file_mode == "r":
            import meshio

            self._m = meshio.read(self.filename)

    def __enter__(self):
        return self

    def __exit__(self, *_a):
        self.close()

    def close(self):
        if self._open and self.mode == "w" and self._mesh is not None:
            import meshio

            m = self._mesh
            cells = m._cells
            if m._cell == "quadrilateral":
                cells = cells[:, [0, 1, 3, 2]]
            if m._cell == "hexahedron":
                cells = cells[:, [0, 1, 3, 2, 4, 5, 7, 6]]
            x = m._x3 if m._gdim != 2 else m._x3[:, :2]
            meshio.write(self.filename, meshio.Mesh(x, [(_MESHIO[m._cell], cells)], point_data=self._point_data))
        self._open = False

    def read_mesh(self, ghost_mode=GhostMode.shared_facet, name="mesh", xpath="/Xdmf/Domain"):
        if self.mode != "r":
            raise RuntimeError("file not open for reading")
        cells = [(b.type, b.data) for b in self._m.cells]
        if len(cells) != 1:
            raise RuntimeError("expected one topology")
        ty, data = cells[0]
        inv = {v: k for k, v in _MESHIO.items()}
        x = np.asarray(self._m.points, float)
        tdim = E.CELLS[inv[ty]]["tdim"]
        if tdim != x.shape[1]:
            raise E.StandinUnsupported("manifold mesh in XDMF file")
        return _mk(self.comm, inv[ty], data, x)

    def read_meshtags(self, mesh, name, xpath="/Xdmf/Domain"):
        if self.mode != "r":
            raise RuntimeError("file not open for reading")
        data = np.concatenate([np.asarray(v).ravel() for v in next(iter(self._m.cell_data.values()))])
        dim = {"line": 1, "triangle": 2, "tetra": 3, "vertex": 0}[self._m.cells[0].type]
        return MeshTags(mesh, dim, np.arange(len(data)), data)

    def write_mesh(self, mesh, *_a, **_k):
        if self.mode == "r":
            raise RuntimeError("file not open for writing")
        self._mesh = mesh
        E.config.xdmf_log.append(("mesh", self.filename, mesh))

    def write_function(self, u, t=0.0, *_a, **_k):
        if self._mesh is None and self.mode == "w":
            raise RuntimeError("write_mesh must be called before write_function")
        m = u.function_space.mesh
        out = np.zeros(len(m._x))
        el = E.ref_element(m._cell, *u.function_space._flat[0])
        tab = el.tabulate((0,) * m._tdim, E.ref_vertices(m._cell))
        vals = u._eval_ref(np.arange(len(m._cells)), tab[None], 0)
        out[m._cells] = vals
        self._point_data[u.name] = out
        E.config.xdmf_log.append(("function", self.filename, u.name, float(t), u.x.array.copy(), u.function_space, self._mesh))

    def write_meshtags(self, *_a, **_k):
        pass


class VTKFile:
    def __init__(self, *_a, **_k):
        raise E.StandinUnsupported("VTKFile")


VTXWriter = VTKFile
