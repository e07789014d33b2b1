"""Planted bugs: meshes and drivers."""
M = "src/dxss/meshes.py"
D1, D2, D3 = (f"src/dxss/solve_{d}d.py" for d in (1, 2, 3))
MH = '''import os, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(here, "standin"), os.path.join(os.getcwd(), "src")]
import numpy as np
import dxss.meshes as m

d = tempfile.TemporaryDirectory()
os.chdir(d.name)
keep = os.dup(1)
os.dup2(os.open(os.devnull, os.O_WRONLY), 1)


def need(ok, msg):
    if not ok:
        sys.stderr.write(f"FAILED: {msg}\\n")
        d.cleanup()
        os._exit(1)


def done():
    d.cleanup()
    os._exit(0)


def cells(mesh):
    """Vertex coordinates of the cells, shape (cells, vertices, dimension)."""
    x = np.asarray(mesh.geometry.x)
    dm = mesh.geometry.dofmap
    n = mesh.topology.index_map(mesh.topology.dim).size_local
    dm = np.array([np.asarray(dm.links(i)) for i in range(n)]) if hasattr(dm, "links") else np.asarray(dm)
    return x[dm][:, : mesh.topology.dim + 1, : mesh.topology.dim]


def area(mesh):
    c = cells(mesh)
    e = c[:, 1:] - c[:, :1]
    return abs(np.linalg.det(e)) / (2 if c.shape[2] == 2 else 6)


'''
DH = '''import os, sys, types
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(here, "standin"), os.path.join(os.getcwd(), "src")]
import numpy as np
import ufl


def need(ok, msg):
    sys.stdout.flush()
    if not ok:
        sys.exit(f"FAILED: {msg}")


class Any:
    def __init__(self, *a, **k):
        self.args, self.kw, self.calls = a, k, []

    def __getattr__(self, name):
        def f(*a, **k):
            self.calls.append((name, a, k))
            return Any()

        return f


# the drivers build their problem when they are imported: replace the solver object and the meshes by recorders
stm = types.ModuleType("dxss.space_time")
for n in ("SpaceTime", "SpaceTimePETScMatrixWrapper", "SpaceTimePETScPreconditionerWrapper"):
    setattr(stm, n, Any)
for n in ("DataDomain", "OrderSpace", "OrderTime", "ProblemParameters", "ValueAndDerivative"):
    setattr(stm, n, lambda *a, **k: types.SimpleNamespace(a=a, **k))
stm.get_sparse_matrix = lambda mat: mat
sys.modules["dxss.space_time"] = stm
mm = types.ModuleType("dxss.meshes")
mm.__getattr__ = lambda n: (lambda *a, **k: [Any() for _ in range(10)])
sys.modules["dxss.meshes"] = mm
import dolfinx.mesh

dolfinx.mesh.create_box = lambda *a, **k: Any()
dolfinx.mesh.create_unit_interval = lambda *a, **k: Any()


def value(expr):
    return float(expr) if not hasattr(expr, "ufl_operands") else float(expr(()))


'''
BUGS = [
    dict(id="m01-corner-height", prop="M01", standin=True, edits=[(M, '''        top_right = gmsh.model.occ.addRectangle(0.75, eta, 0, 0.25, 1.0 - eta, tag=8)
''', '''        top_right = gmsh.model.occ.addRectangle(0.75, eta, 0, 0.25, 0.4, tag=8)
''')],
         needs="an interface height other than the default 0.6", breaks="the mesh has a hole in the upper right corner, or leaves the unit square",
         demo=MH + '''for eta in (0.6, 0.5, 0.7):
    a = area(m.get_mesh_bottom_data(h_init=2.0, eta=eta)).sum()
    need(abs(a - 1) < 1e-9, f"the cells cover an area of {a} for eta = {eta}")
done()
'''),
    dict(id="m02-target-height", prop="M02", standin=True, edits=[(M, '''        b_plus = gmsh.model.occ.addRectangle(0.25, eta, 0, 0.5, 0.9 - eta, tag=5)
''', '''        b_plus = gmsh.model.occ.addRectangle(0.25, eta, 0, 0.5, 0.3, tag=5)
''')],
         needs="an interface height other than the default 0.6", breaks="the upper end of the target domain is cut by cells",
         demo=MH + '''for eta in (0.6, 0.5):
    x = cells(m.get_mesh_bottom_data(h_init=1.0, eta=eta))
    mid = (x[:, :, 0].min(1) > 0.25 - 1e-9) & (x[:, :, 0].max(1) < 0.75 + 1e-9)
    need(not np.any(mid & (x[:, :, 1].min(1) < 0.9 - 1e-9) & (x[:, :, 1].max(1) > 0.9 + 1e-9)), f"cells cut by y = 0.9 for eta = {eta}")
done()
'''),
    dict(id="m03-left-column", prop="M03", standin=True, edits=[(M, '''    mesh_hierarchy = []
    mesh_hierarchy.append(mesh)

    def refine_all(x):
        return x[0] >= 0

    for _i in range(n_ref):
        mesh.topology.create_entities(1)
        cells = locate_entities(mesh, mesh.topology.dim, refine_all)
        # Call signature''', '''    mesh_hierarchy = []
    mesh_hierarchy.append(mesh)

    def refine_all(x):
        return x[0] > 0

    for _i in range(n_ref):
        mesh.topology.create_entities(1)
        cells = locate_entities(mesh, mesh.topology.dim, refine_all)
        # Call signature''')],
         needs="a refinement; only cells with a vertex on the left side are affected (all vertices of a marked cell must satisfy the predicate)",
         breaks="cells at the left side are not refined uniformly",
         demo=MH + '''h = m.get_mesh_data_all_around(1, init_h_scale=3.0)
need(len(cells(h[1])) == 4 * len(cells(h[0])), f"{len(cells(h[0]))} cells become {len(cells(h[1]))}")
done()
'''),
    dict(id="m04-first-model", prop="M04", standin=True, edits=[(M, '''    gmsh.initialize()
    gmsh.model.add("inclm")
    gmsh.option.setNumber("Mesh.MeshSizeFactor", h_init)

    if MPI''', '''    if not gmsh.isInitialized():
        gmsh.initialize()
    gmsh.model.add("inclm")
    gmsh.option.setNumber("Mesh.MeshSizeFactor", h_init)

    if MPI'''), (M, '''    gmsh.finalize()

    cells = cells[:, perm_gmsh(cell_type, cells.shape[1])]
    msh = create_mesh(
        MPI.COMM_WORLD,
        cells,
        x,
        gmshio.ufl_mesh(gmsh_cell_id, x.shape[1]),
    )

    with XDMFFile(msh.comm, "mesh.xdmf", "w") as xdmf:
        xdmf.write_mesh(msh)
    return msh


def get_mesh_data_all_around''', '''    gmsh.model.remove()

    cells = cells[:, perm_gmsh(cell_type, cells.shape[1])]
    msh = create_mesh(
        MPI.COMM_WORLD,
        cells,
        x,
        gmshio.ufl_mesh(gmsh_cell_id, x.shape[1]),
    )

    with XDMFFile(msh.comm, "mesh.xdmf", "w") as xdmf:
        xdmf.write_mesh(msh)
    return msh


def get_mesh_data_all_around''')],
         needs="a generator call after another one, or a caller that uses gmsh itself",
         breaks="gmsh stays initialised after get_mesh_bottom_data", 
         demo=MH + '''import gmsh
m.get_mesh_bottom_data(h_init=3.0)
need(not gmsh.isInitialized(), "gmsh is still initialised")
done()
'''),
    dict(id="m05-corner-edges", prop="M05", standin=True, edits=[(M, '''    gmsh.option.setNumber("Mesh.MeshSizeFactor", init_h_scale)
    proc = MPI.COMM_WORLD.rank
    bnd_marker = 1
    if proc == 0:
        # We create one rectangle for each subdomain

        r1 = gmsh.model.occ.addRectangle(0, 0, 0, 1, 1, tag=1)
        r2 = gmsh.model.occ.addRectangle(0.2, 0.2, 0, 0.6, 0.6, tag=2)
''', '''    gmsh.option.setNumber("Mesh.MeshSizeFactor", init_h_scale)
    proc = MPI.COMM_WORLD.rank
    bnd_marker = 1
    atol = 0.25 * min(init_h_scale, 1.0)
    if proc == 0:
        # We create one rectangle for each subdomain

        r1 = gmsh.model.occ.addRectangle(0, 0, 0, 1, 1, tag=1)
        r2 = gmsh.model.occ.addRectangle(0.2, 0.2, 0, 0.6, 0.6, tag=2)
'''), (M, '''            gmsh.model.addPhysicalGroup(2, [surface[1]], its)
            its += 1

        # Tag the left boundary
        bnd_square = []
        for line in gmsh.model.getEntities(dim=1):
            com = gmsh.model.occ.getCenterOfMass(line[0], line[1])
            if (
                np.isclose(com[0], 0)
                or np.isclose(com[0], 1)
                or np.isclose(com[1], 0)
                or np.isclose(com[1], 1)
            ):
                bnd_square.append(line[1])
        gmsh.model.addPhysicalGroup(1, bnd_square, bnd_marker)
        gmsh.model.mesh.generate(2)
        gmsh.write("mesh.msh")
    gmsh.finalize()

    import meshio

    def create_mesh(mesh, cell_type, prune_z=False):
        cells = mesh.get_cells_type(cell_type)
        cell_data = mesh.get_cell_data("gmsh:physical", cell_type)
        points = mesh.points[:, :2] if prune_z else mesh.points
        return meshio.Mesh(
            points=points,
            cells={cell_type: cells},
            cell_data={"name_to_read": [cell_data]},
        )

    if proc == 0:
        # Read in mesh
        msh = meshio.read("mesh.msh")

        # Create and save one file for the mesh, and one file for the facets
        triangle_mesh = create_mesh(msh, "triangle", prune_z=True)
        line_mesh = create_mesh(msh, "line", prune_z=True)
        meshio.write("mesh.xdmf", triangle_mesh)
        meshio.write("mt.xdmf", line_mesh)

    # for i in range(n_ref):

    with XDMFFile(MPI.COMM_WORLD, "mesh.xdmf", "r") as xdmf:
        print("ghost_mode = GhostMode.shared_facet")
        mesh = xdmf.read_mesh(name="Grid", ghost_mode=GM)
        xdmf.read_meshtags(mesh, name="Grid")
        mesh.topology.create_connectivity(mesh.topology.dim, mesh.topology.dim - 1)
    with XDMFFile(MPI.COMM_WORLD, "mt.xdmf", "r") as xdmf:
        xdmf.read_meshtags(mesh, name="Grid")

    mesh_hierarchy = []
    mesh_hierarchy.append(mesh)

    def refine_all(x):
        return x[0] >= 0

    for _i in range(n_ref):
        mesh.topology.create_entities(1)
        cells = locate_entities(mesh, mesh.topology.dim, refine_all)
        # Call''', '''            gmsh.model.addPhysicalGroup(2, [surface[1]], its)
            its += 1

        # Tag the left boundary
        bnd_square = []
        for line in gmsh.model.getEntities(dim=1):
            com = gmsh.model.occ.getCenterOfMass(line[0], line[1])
            if (
                np.isclose(com[0], 0, atol=atol)
                or np.isclose(com[0], 1, atol=atol)
                or np.isclose(com[1], 0, atol=atol)
                or np.isclose(com[1], 1, atol=atol)
            ):
                bnd_square.append(line[1])
        gmsh.model.addPhysicalGroup(1, bnd_square, bnd_marker)
        gmsh.model.mesh.generate(2)
        gmsh.write("mesh.msh")
    gmsh.finalize()

    import meshio

    def create_mesh(mesh, cell_type, prune_z=False):
        cells = mesh.get_cells_type(cell_type)
        cell_data = mesh.get_cell_data("gmsh:physical", cell_type)
        points = mesh.points[:, :2] if prune_z else mesh.points
        return meshio.Mesh(
            points=points,
            cells={cell_type: cells},
            cell_data={"name_to_read": [cell_data]},
        )

    if proc == 0:
        # Read in mesh
        msh = meshio.read("mesh.msh")

        # Create and save one file for the mesh, and one file for the facets
        triangle_mesh = create_mesh(msh, "triangle", prune_z=True)
        line_mesh = create_mesh(msh, "line", prune_z=True)
        meshio.write("mesh.xdmf", triangle_mesh)
        meshio.write("mt.xdmf", line_mesh)

    # for i in range(n_ref):

    with XDMFFile(MPI.COMM_WORLD, "mesh.xdmf", "r") as xdmf:
        print("ghost_mode = GhostMode.shared_facet")
        mesh = xdmf.read_mesh(name="Grid", ghost_mode=GM)
        xdmf.read_meshtags(mesh, name="Grid")
        mesh.topology.create_connectivity(mesh.topology.dim, mesh.topology.dim - 1)
    with XDMFFile(MPI.COMM_WORLD, "mt.xdmf", "r") as xdmf:
        xdmf.read_meshtags(mesh, name="Grid")

    mesh_hierarchy = []
    mesh_hierarchy.append(mesh)

    def refine_all(x):
        return x[0] >= 0

    for _i in range(n_ref):
        mesh.topology.create_entities(1)
        cells = locate_entities(mesh, mesh.topology.dim, refine_all)
        # Call''')],
         needs="a size factor above 0.8 of the geometry with the data domain all around",
         breaks="the boundary file also labels the edges of the inner interface",
         demo=MH + '''import meshio
m.get_mesh_data_all_around(0, init_h_scale=1.0)
b = meshio.read("mt.xdmf")
x = b.points[b.cells_dict["line"]]
out = np.zeros(len(x), bool)
for a in (0, 1):
    for v in (0.0, 1.0):
        out |= np.all(abs(x[:, :, a] - v) < 1e-9, axis=1)
need(out.all(), f"{np.sum(~out)} edges of the boundary file are not on the boundary")
done()
'''),
    dict(id="m06-curve-order", prop="M01", standin=True, edits=[(M, '''    cells = node_tags[0].reshape(-1, num_nodes) - 1
    if cell_type == CellType.triangle:
        gmsh_cell_id = gmsh.model.mesh.getElementType("triangle", order)
    elif cell_type == CellType.quadrilateral:
        gmsh_cell_id = gmsh.model.mesh.getElementType("quadrangle", order)
    gmsh.finalize()

    cells = cells[:, perm_gmsh(cell_type, cells.shape[1])]
    msh = create_mesh(
        MPI.COMM_WORLD,
        cells,
        x,
        gmshio.ufl_mesh(gmsh_cell_id, x.shape[1]),
    )

    with XDMFFile(msh.comm, "mesh.xdmf", "w") as xdmf:
        xdmf.write_mesh(msh)
    return msh


def get_mesh_inclusion_square''', '''    cells = node_tags[0].reshape(-1, num_nodes) - 1
    if cell_type == CellType.triangle:
        gmsh_cell_id = gmsh.model.mesh.getElementType("triangle", order)
    elif cell_type == CellType.quadrilateral:
        gmsh_cell_id = gmsh.model.mesh.getElementType("quadrangle", order)
    gmsh.finalize()

    cells = cells[:, np.argsort(perm_gmsh(cell_type, cells.shape[1]))]
    msh = create_mesh(
        MPI.COMM_WORLD,
        cells,
        x,
        gmshio.ufl_mesh(gmsh_cell_id, x.shape[1]),
    )

    with XDMFFile(msh.comm, "mesh.xdmf", "w") as xdmf:
        xdmf.write_mesh(msh)
    return msh


def get_mesh_inclusion_square''')],
         needs="geometry of order three (for lower orders the permutation is its own inverse)",
         breaks="the nodes of curved cells are stored in gmsh's order, so the cells fold",
         demo=MH + '''got = []
real = m.create_mesh
m.create_mesh = lambda comm, cells, x, *a, **k: (got.append((np.array(cells), np.array(x))), real(comm, cells, x, *a, **k))[1]
m.get_mesh_inclusion(h_init=1.5, order=3)
dm, x = got[0]
c = x[dm]
# DOLFINx: nodes 3, 4 lie at thirds of the edge from vertex 1 to vertex 2, and so on
ref = {3: (1, 2, 1), 4: (1, 2, 2), 5: (0, 2, 1), 6: (0, 2, 2), 7: (0, 1, 1), 8: (0, 1, 2)}
for i, (a, b, w) in ref.items():
    p = ((3 - w) * c[:, a] + w * c[:, b]) / 3
    need(np.all(np.linalg.norm(c[:, i] - p, axis=1) < 0.15 * np.linalg.norm(c[:, a] - c[:, b], axis=1)), f"node {i} is not on its edge")
done()
'''),
    dict(id="d01-velocity-factor", prop="D01", standin=True, edits=[(D3, '''        -sqrt(3)
        * pi
        * ufl.sin(sqrt(3) * pi * t)
''', '''        -3
        * pi
        * ufl.sin(sqrt(3) * pi * t)
''')],
         needs="the derivative of the 3D sample solution compared with the solution itself at a time other than zero",
         breaks="the stated time derivative is not the derivative of the sample solution",
         demo=DH + '''import dxss.solve_3d as d

x = (0.3, 0.4, 0.6)
f = lambda t: value(d.sample_sol(t, x))
for t in (0.1, 0.3):
    need(abs((f(t + 1e-5) - f(t - 1e-5)) / 2e-5 - value(d.dt_sample_sol(t, x))) < 1e-4, t)
'''),
    dict(id="d01-open-side", prop="D01", standin=True, edits=[(D2, '''            np.logical_or((x[1] >= 0.8), (x[1] <= 0.2)),
''', '''            np.logical_and((x[1] >= 0.8), (x[1] <= 0.2)),
''')],
         needs="a point near the lower or upper side only", breaks="the 2D data domain misses the strips along the lower and upper side",
         demo=DH + '''import dxss.solve_2d as d

x = np.array([[0.5, 0.5, 0.5, 0.1, 0.9], [0.1, 0.9, 0.5, 0.5, 0.5], [0.0] * 5])
need(np.array_equal(d.omega_ind_convex(x), [1, 1, 0, 1, 1]), d.omega_ind_convex(x))
'''),
    dict(id="d02-precond-matrix", prop="D02", standin=True, edits=[(D2, '''        A_space_time = ST.get_spacetime_matrix()  # noqa: N806
''', '''        A_space_time = ST.get_spacetime_matrix(precond=True)  # noqa: N806
''')],
         needs="the third solver back end selected in the 2D driver",
         breaks="the direct back end solves with the preconditioning variant of the matrix",
         demo=DH + '''import dxss.solve_2d as d

asked = []


class Mat:
    def createVecs(self):
        return Any(), Any()


d.ST.get_spacetime_matrix = lambda *a, **k: (asked.append((a, k)), Mat())[1]
d.get_lu_solver = lambda msh, mat: Any()
d.SOLVER_TYPE = "direct"
d.solve_problem(measure_errors=False)
for a, k in asked:
    need(not any(a) and not any(k.values()), f"the matrix was requested with {a} {k}")
'''),
    dict(id="d03-in-place", prop="D03", standin=True, edits=[(D2, '''        self.solver.set_phase(33)
        x_out.array[:] = self.solver._call_pardiso(self.Asp, b)[:]  # noqa: SLF001, TODO: fix this.
''', '''        self.solver.set_phase(33)
        b[:] = self.solver._call_pardiso(self.Asp, b)  # noqa: SLF001, TODO: fix this.
        x_out.array[:] = b[:]
''')],
         needs="the right-hand side used again after the solve (a solver that checks it without copying)",
         breaks="the adapter overwrites the right-hand side with the solution",
         demo=DH + '''import warnings
warnings.simplefilter("ignore")
import dxss.solve_2d as d


class Fake:
    def _check_A(self, a):
        pass

    def _check_b(self, a, b):
        return b

    def set_phase(self, p):
        pass

    def _call_pardiso(self, a, b):
        return np.linalg.solve(a, b)


a = np.array([[2.0, 1.0], [0.0, 4.0]])
b = types.SimpleNamespace(array=np.array([3.0, 4.0]))
x = types.SimpleNamespace(array=np.zeros(2))
d.PySolver(a, Fake()).solve(b, x)
need(np.allclose(x.array, [1, 1]), x.array)
need(np.array_equal(b.array, [3, 4]), "the right-hand side was overwritten")
'''),
]
