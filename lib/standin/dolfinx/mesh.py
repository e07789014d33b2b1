from __future__ import annotations

import enum
import itertools

import numpy as np
import ufl
from mpi4py import MPI

from dolfinx import _engine as E


class CellType(enum.IntEnum):
    point = 1
    interval = 2
    triangle = 3
    tetrahedron = 4
    quadrilateral = -4
    pyramid = -5
    prism = -6
    hexahedron = -8


class GhostMode(enum.IntEnum):
    none = 0
    shared_facet = 1
    shared_vertex = 2


class DiagonalType(enum.IntEnum):
    left = 0
    right = 1
    crossed = 2
    left_right = 4
    right_left = 5


class _IndexMap:
    def __init__(self, n):
        self.size_local, self.size_global, self.num_ghosts = n, n, 0
        self.local_range = (0, n)


class _Adjacency:
    def __init__(self, arr):
        self._arr = arr
        self.array = np.concatenate([np.asarray(a) for a in arr]) if len(arr) else np.zeros(0, int)
        self.offsets = np.cumsum([0] + [len(a) for a in arr])
        self.num_nodes = len(arr)

    def links(self, i):
        return np.asarray(self._arr[i])


class Topology:
    def __init__(self, mesh):
        self._m = mesh
        self.dim = mesh._tdim
        self._created = {self.dim, 0}
        self._conn = {(self.dim, 0)}
        self.cell_types = [getattr(CellType, mesh._cell)]

    @property
    def cell_type(self):
        return self.cell_types[0]

    @property
    def cell_name(self):
        return lambda: self._m._cell

    def create_entities(self, d):
        self._created.add(d)
        self._conn |= {(self.dim, d), (d, 0)}
        return len(self._m._entities(d))

    def create_connectivity(self, d0, d1):
        self._created |= {d0, d1}
        self._conn |= {(d0, d1), (d0, 0), (d1, 0)}

    def create_entity_permutations(self):
        pass

    def index_map(self, d):
        return _IndexMap(len(self._m._entities(d))) if d in self._created else None

    def connectivity(self, d0, d1):
        if (d0, d1) not in self._conn:
            return None
        return _Adjacency(self._m._connectivity(d0, d1))


class Geometry:
    def __init__(self, mesh):
        self._m = mesh
        self.dim = mesh._gdim
        self.dofmap = mesh._cells

    @property
    def x(self):
        return self._m._x3

    def index_map(self):
        return _IndexMap(len(self._m._x3))


class Mesh:
    def __init__(self, comm, cell, cells, x, name="mesh"):
        x = np.asarray(x, dtype=float)
        self.comm = comm
        self.name = name
        self._cell = cell
        self._cells = np.array(cells, dtype=np.int64)
        self._tdim = E.CELLS[cell]["tdim"]
        self._gdim = x.shape[1]
        self._x = x
        self._x3 = np.zeros((len(x), 3))
        self._x3[:, : self._gdim] = x
        self._simplex = E.CELLS[cell]["simplex"]
        if self._gdim != self._tdim:
            raise E.StandinUnsupported("manifold meshes")
        self._dof_cache = {}
        self._ent_cache = {}
        self._tab_cache = {}
        self.topology = Topology(self)
        self.geometry = Geometry(self)
        self._ufl_cell = ufl.Cell(cell, geometric_dimension=self._gdim)
        self._ufl_domain = ufl.Mesh(
            ufl.VectorElement("Lagrange" if self._simplex else "Q", self._ufl_cell, 1, dim=self._gdim),
        )
        self._ufl_domain._standin_mesh = self
        # affine geometry
        self._v0 = x[self._cells[:, 0]]
        if self._simplex:
            idx = list(range(1, self._tdim + 1))
        else:
            idx = [2**b for b in range(self._tdim)]
        self._J = np.stack([x[self._cells[:, i]] - self._v0 for i in idx], axis=2)  # (nc,g,t)
        if not self._simplex:
            rv = E.ref_vertices(cell)
            want = self._v0[:, None, :] + np.einsum("cgt,vt->cvg", self._J, rv)
            if not np.allclose(want, x[self._cells], atol=1e-10):
                raise E.StandinUnsupported("non-affine box cells")
        self._detJ = np.abs(np.linalg.det(self._J))
        self._K = np.linalg.inv(self._J)  # (nc,t,g)
        pv = x[self._cells]
        self._h = np.sqrt(((pv[:, :, None, :] - pv[:, None, :, :]) ** 2).sum(-1)).max(axis=(1, 2))
        import math

        self._vol = self._detJ * (1.0 / math.factorial(self._tdim) if self._simplex else 1.0)

    def _measure(self, name):
        """Circumradius (of simplices only, like UFL), shortest or longest edge of each cell."""
        pv = self._x[self._cells]
        if name == "Circumradius":
            if not self._simplex:
                raise ValueError("Circumradius only makes sense for affine simplex cells.")
            # the centre c solves 2 (v_i - v_0) c = |v_i|^2 - |v_0|^2
            m = 2 * (pv[:, 1:] - pv[:, :1])
            r = ((pv[:, 1:] - pv[:, :1]) ** 2).sum(-1)
            return np.sqrt((np.linalg.solve(m, r[..., None])[..., 0] ** 2).sum(-1))
        rv = E.ref_vertices(self._cell)
        ev = [(a, b) for a in range(len(rv)) for b in range(a) if self._simplex or np.abs(rv[a] - rv[b]).sum() == 1]
        lengths = np.stack([np.sqrt(((pv[:, b] - pv[:, a]) ** 2).sum(-1)) for a, b in ev], axis=1)
        return lengths.min(axis=1) if name == "MinCellEdgeLength" else lengths.max(axis=1)

    # --- public DOLFINx-like API
    def ufl_cell(self):
        return self._ufl_cell

    def ufl_domain(self):
        return self._ufl_domain

    def ufl_id(self):
        return self._ufl_domain.ufl_id()

    def basix_cell(self):
        return self._cell

    def h(self, dim, entities):
        if dim != self._tdim:
            raise E.StandinUnsupported("mesh.h of facets")
        return self._h[np.asarray(entities)]

    # --- helpers
    def push_forward(self, X):
        """(nc, npts, gdim) images of reference points."""
        return self._v0[:, None, :] + np.einsum("cgt,pt->cpg", self._J, np.asarray(X))

    def pull_back(self, cells, x):
        """reference coords of x (n, nq, g) in cells (n,)."""
        return np.einsum("ntg,nqg->nqt", self._K[cells], x - self._v0[cells][:, None, :])

    def _entities(self, d):
        """(ne, nv) sorted vertex tuples; cells keep their own order."""
        if d in self._ent_cache:
            return self._ent_cache[d][0]
        if d == self._tdim:
            ents = self._cells
            c2e = np.arange(len(self._cells))[:, None]
        elif d == 0:
            used = np.unique(self._cells)
            ents = used[:, None]
            c2e = np.searchsorted(used, self._cells)
        else:
            loc = self._local_entities(d)
            rows = np.sort(np.stack([self._cells[:, list(le)] for le in loc], axis=1), axis=2)
            flat = rows.reshape(-1, rows.shape[2])
            ents, inv = np.unique(flat, axis=0, return_inverse=True)
            c2e = np.asarray(inv).reshape(len(self._cells), len(loc))
        self._ent_cache[d] = (ents, c2e)
        return ents

    def _local_entities(self, d):
        if d == self._tdim - 1:
            return E.facet_vertices(self._cell)
        if d == 1:
            rv = E.ref_vertices(self._cell)
            n = len(rv)
            pairs = itertools.combinations(range(n), 2)
            if self._simplex:
                return list(pairs)
            return [p for p in pairs if np.abs(rv[p[0]] - rv[p[1]]).sum() == 1]
        raise E.StandinUnsupported(f"entities of dim {d}")

    def _cell_entities(self, d):
        self._entities(d)
        return self._ent_cache[d][1]

    def _connectivity(self, d0, d1):
        if d0 == self._tdim:
            return list(self._cell_entities(d1)) if d1 > 0 else list(self._cells)
        if d1 == 0:
            return list(self._entities(d0))
        if d1 == self._tdim:
            c2e = self._cell_entities(d0)
            out = [[] for _ in range(len(self._entities(d0)))]
            for c, es in enumerate(c2e):
                for e in es:
                    out[e].append(c)
            return [np.array(o) for o in out]
        raise E.StandinUnsupported(f"connectivity {d0}-{d1}")

    def _facets(self):
        """List of (facet vertices, [(cell, local facet), ...])."""
        key = "facets"
        if key not in self._ent_cache:
            c2f = self._cell_entities(self._tdim - 1) if self._tdim > 1 else self._cells
            nf = int(c2f.max()) + 1
            links = [[] for _ in range(nf)]
            for c, fs in enumerate(c2f):
                for lf, f in enumerate(fs):
                    links[f].append((c, lf))
            links = [lk for lk in links if lk]
            ext = np.array([lk[0] for lk in links if len(lk) == 1], dtype=np.int64).reshape(-1, 2)
            inn = np.array([[*lk[0], *lk[1]] for lk in links if len(lk) == 2], dtype=np.int64).reshape(-1, 4)
            if any(len(lk) > 2 for lk in links):
                raise RuntimeError("non-manifold mesh: facet shared by more than two cells")
            # '+'/'-' sides are arbitrary in DOLFINx; swap some of them
            if E.config.dof_seed is not None and len(inn):
                sw = np.random.default_rng([E.config.dof_seed, len(inn), 7]).random(len(inn)) < 0.5
                inn[sw] = inn[sw][:, [2, 3, 0, 1]]
            self._ent_cache[key] = (ext, inn)
        return self._ent_cache[key]

    def _locate_cell(self, pts, tol=1e-9):
        """A cell containing each point (n, gdim), or -1."""
        out = np.full(len(pts), -1)
        pv = self._x[self._cells]
        lo, hi = pv.min(axis=1) - 1e-9, pv.max(axis=1) + 1e-9
        for i, p in enumerate(pts):
            cand = np.where(np.all((p >= lo) & (p <= hi), axis=1))[0]
            if not len(cand):
                continue
            X = np.einsum("ntg,ng->nt", self._K[cand], p - self._v0[cand])
            if self._simplex:
                m = np.minimum(X.min(axis=1), 1 - X.sum(axis=1))
            else:
                m = np.minimum(X.min(axis=1), (1 - X).min(axis=1))
            j = int(np.argmax(m))
            if m[j] >= -tol * 10:
                out[i] = cand[j]
        return out


class MeshTags:
    def __init__(self, mesh, dim, indices, values):
        self.mesh, self.topology, self.dim = mesh, mesh.topology, dim
        self.indices, self.values = np.asarray(indices), np.asarray(values)
        self.name = "mesh_tags"

    def find(self, v):
        return self.indices[self.values == v]


def meshtags(mesh, dim, entities, values):
    return MeshTags(mesh, dim, entities, np.broadcast_to(values, np.shape(entities)))


def create_mesh(comm, cells, x, domain):
    """cells: (nc, nnodes) in DOLFINx node order; domain: a ufl.Mesh giving cell and degree."""
    cellname = domain.ufl_cell().cellname()
    x = np.asarray(x, dtype=float)
    cells = np.asarray(cells, dtype=np.int64)
    ce = domain.ufl_coordinate_element()
    gd = ce.value_shape()[0] if ce.value_shape() else 1
    if x.shape[1] != gd:
        raise RuntimeError(f"geometry has {x.shape[1]} columns but the domain expects {gd}")
    deg = ce.degree() if isinstance(ce.degree(), int) else max(ce.degree())
    nv = E.ref_vertices(cellname).shape[0]
    nnod = E.ref_element(cellname, deg, True).ndofs
    if cells.shape[1] != nnod:
        raise RuntimeError(f"{cells.shape[1]} nodes per cell given, coordinate element has {nnod}")
    if len(cells) and (cells.min() < 0 or cells.max() >= len(x)):
        raise RuntimeError("cell refers to a node that does not exist")
    verts = cells[:, :nv]
    m = _mk(comm, cellname, verts, x)
    m._ho_cells, m._ho_x, m._ho_degree = cells, x, deg
    return m


def _mk(comm, cell, cells, x, name="mesh"):
    """Drop unused nodes and build."""
    cells = np.asarray(cells, dtype=np.int64)
    used, inv = np.unique(cells, return_inverse=True)
    return Mesh(comm, cell, np.asarray(inv).reshape(cells.shape), np.asarray(x)[used], name)


def create_interval(comm, nx, points, dtype=float, ghost_mode=GhostMode.shared_facet, partitioner=None):
    x = np.linspace(points[0], points[1], int(nx) + 1)[:, None]
    cells = np.stack([np.arange(nx), np.arange(1, nx + 1)], axis=1)
    return Mesh(comm, "interval", cells, x)


def create_unit_interval(comm, nx, dtype=float, ghost_mode=GhostMode.shared_facet, partitioner=None):
    return create_interval(comm, nx, [0.0, 1.0])


def _grid(lo, hi, n):
    axes = [np.linspace(a, b, k + 1) for a, b, k in zip(lo, hi, n)]
    d = len(n)
    grids = np.meshgrid(*axes, indexing="ij")
    x = np.stack([g.ravel() for g in grids], axis=1)
    idx = np.arange(len(x)).reshape([k + 1 for k in n])
    cells = []
    for c in itertools.product(*[range(k) for k in n]):
        cells.append([idx[tuple(c[b] + ((i >> b) & 1) for b in range(d))] for i in range(2**d)])
    return x, np.array(cells)


def create_rectangle(comm, points, n, cell_type=CellType.triangle, dtype=float,
                     ghost_mode=GhostMode.shared_facet, diagonal=DiagonalType.right, partitioner=None):
    p = np.asarray(points, dtype=float)
    x, q = _grid(p[0], p[1], list(n))
    if cell_type == CellType.quadrilateral:
        return Mesh(comm, "quadrilateral", q, x)
    tri = []
    for a, b, c, d in q:
        tri += [[a, b, d], [a, c, d]] if diagonal == DiagonalType.right else [[a, b, c], [b, c, d]]
    return Mesh(comm, "triangle", tri, x)


def create_unit_square(comm, nx, ny, cell_type=CellType.triangle, dtype=float,
                       ghost_mode=GhostMode.shared_facet, diagonal=DiagonalType.right, partitioner=None):
    return create_rectangle(comm, [[0, 0], [1, 1]], [nx, ny], cell_type, diagonal=diagonal)


def create_box(comm, points, n, cell_type=CellType.tetrahedron, dtype=float,
               ghost_mode=GhostMode.shared_facet, partitioner=None):
    p = np.asarray(points, dtype=float)
    x, q = _grid(p[0], p[1], list(n))
    if cell_type == CellType.hexahedron:
        return Mesh(comm, "hexahedron", q, x)
    tets = []
    for c in q:
        v = [c[i] for i in (0, 1, 2, 3, 4, 5, 6, 7)]
        tets += [[v[0], v[1], v[3], v[7]], [v[0], v[1], v[7], v[5]], [v[0], v[5], v[7], v[4]],
                 [v[0], v[3], v[2], v[7]], [v[0], v[6], v[4], v[7]], [v[0], v[2], v[6], v[7]]]
    return Mesh(comm, "tetrahedron", tets, x)


def create_unit_cube(comm, nx, ny, nz, cell_type=CellType.tetrahedron, dtype=float,
                     ghost_mode=GhostMode.shared_facet, partitioner=None):
    return create_box(comm, [[0, 0, 0], [1, 1, 1]], [nx, ny, nz], cell_type)


def locate_entities(mesh, dim, marker):
    if dim not in mesh.topology._created:
        raise RuntimeError("Mesh entities have not been created")
    mk = np.asarray(marker(mesh._x3.T))
    ents = mesh._entities(dim)
    if mk.shape != (len(mesh._x3),):
        raise RuntimeError("Length of array of markers is wrong.")
    return np.where(mk[ents].all(axis=1))[0].astype(np.int32)


def exterior_facet_indices(topology):
    m = topology._m
    c2f = m._cell_entities(m._tdim - 1)
    cnt = np.bincount(c2f.ravel())
    return np.where(cnt == 1)[0].astype(np.int32)


def locate_entities_boundary(mesh, dim, marker):
    if dim != mesh._tdim - 1:
        raise E.StandinUnsupported("locate_entities_boundary of that dimension")
    ext = exterior_facet_indices(mesh.topology)
    mk = np.asarray(marker(mesh._x3.T))
    ents = mesh._entities(dim)
    return np.array([f for f in ext if mk[ents[f]].all()], dtype=np.int32)


def compute_midpoints(mesh, dim, entities):
    return mesh._x3[mesh._entities(dim)[np.asarray(entities)]].mean(axis=1)


def compute_incident_entities(mesh_or_topology, entities, d0, d1):
    old = tuple(int(p) for p in E.config.version.split(".")[:2]) < (0, 7)
    if old and not isinstance(mesh_or_topology, Mesh):
        raise TypeError("compute_incident_entities(): incompatible function arguments (0.6: mesh)")
    if not old and not isinstance(mesh_or_topology, Topology):
        raise TypeError("compute_incident_entities(): incompatible function arguments (0.7: topology)")
    t = mesh_or_topology.topology if old else mesh_or_topology
    m = t._m
    if d0 not in t._created or d1 not in t._created or (d0, d1) not in t._conn:
        raise RuntimeError(f"Missing connectivity ({d0}, {d1})")
    conn = m._connectivity(d0, d1)
    out = sorted({int(e) for i in np.asarray(entities, dtype=int) for e in conn[i]})
    return np.array(out, dtype=np.int32)


def refine(mesh, edges=None, redistribute=True, ghost_mode=GhostMode.shared_facet):
    """Plaza refinement (triangles: any marking; intervals/tetrahedra: any / uniform)."""
    if 1 not in mesh.topology._created:
        raise RuntimeError("Edges must be initialised")
    x = mesh._x
    if mesh._cell == "interval":
        nc = len(mesh._cells)
        mark = np.zeros(nc, bool)
        mark[np.arange(nc) if edges is None else np.asarray(edges, int)] = True
        new, pts = [], list(x)
        for c, (a, b) in enumerate(mesh._cells):
            if mark[c]:
                pts.append(0.5 * (x[a] + x[b]))
                new += [[a, len(pts) - 1], [len(pts) - 1, b]]
            else:
                new.append([a, b])
        return Mesh(mesh.comm, "interval", new, np.array(pts))
    ed = mesh._entities(1)
    c2e = mesh._cell_entities(1)
    length = np.linalg.norm(x[ed[:, 0]] - x[ed[:, 1]], axis=1)
    mark = np.zeros(len(ed), bool)
    mark[np.arange(len(ed)) if edges is None else np.asarray(edges, int)] = True
    mid = {}
    if mesh._cell == "triangle":
        longest = c2e[np.arange(len(c2e)), np.argmax(np.round(length[c2e], 12) + 1e-13 * c2e, axis=1)]
        while True:
            need = mark[c2e].any(axis=1) & ~mark[longest]
            if not need.any():
                break
            mark[longest[need]] = True
        ids = np.where(mark)[0]
        mid = {int(e): len(x) + i for i, e in enumerate(ids)}
        pts = np.vstack([x, 0.5 * (x[ed[ids, 0]] + x[ed[ids, 1]])])
        loc = E.facet_vertices("triangle")
        new = []
        for c, tri in enumerate(mesh._cells):
            es = c2e[c]
            if not mark[es].any():
                new.append(list(tri))
                continue
            le = int(np.where(es == longest[c])[0][0])  # local longest edge, opposite vertex le
            o, (a, b) = tri[le], (tri[i] for i in loc[le])
            m = mid[int(es[le])]
            for p in (a, b):  # half triangles (o, p, m); their only splittable edge is (o, p)
                q = [i for i in range(3) if i != le and set(tri[list(loc[i])]) == {o, p}][0]
                e = int(es[q])
                if mark[e]:
                    new += [[o, mid[e], m], [mid[e], p, m]]
                else:
                    new.append([o, p, m])
        return Mesh(mesh.comm, "triangle", new, pts)
    if mesh._cell == "tetrahedron":
        if not mark.all():
            raise E.StandinUnsupported("partial refinement of tetrahedra")
        pts = np.vstack([x, 0.5 * (x[ed[:, 0]] + x[ed[:, 1]])])
        loc = mesh._local_entities(1)
        new = []
        for c, t in enumerate(mesh._cells):
            mdp = {frozenset(loc[i]): len(x) + int(c2e[c][i]) for i in range(6)}
            mm = lambda i, j: mdp[frozenset((i, j))]  # noqa: E731
            new += [[t[0], mm(0, 1), mm(0, 2), mm(0, 3)], [t[1], mm(0, 1), mm(1, 2), mm(1, 3)],
                    [t[2], mm(0, 2), mm(1, 2), mm(2, 3)], [t[3], mm(0, 3), mm(1, 3), mm(2, 3)]]
            a, b = mm(0, 1), mm(2, 3)
            ring = [mm(0, 2), mm(0, 3), mm(1, 3), mm(1, 2)]
            for i in range(4):
                new.append([a, b, ring[i], ring[(i + 1) % 4]])
        return Mesh(mesh.comm, "tetrahedron", new, pts)
    raise E.StandinUnsupported(f"refinement of {mesh._cell}")


def create_submesh(*_a, **_k):
    raise E.StandinUnsupported("create_submesh")


def create_cell_partitioner(*_a, **_k):
    return None


_ = MPI
