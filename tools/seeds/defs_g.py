"""Planted bugs: from the probes that the checks missed at first."""
from defs_a import P
from defs_b import H, S
from defs_c import M, MH

BUGS = [
    dict(id="t03-shared-points", prop="T03", edits=[(P, '''            return [0.5 * (b - a) * pt + 0.5 * (b + a) for pt in self.points]
''', '''            if (a, b) == (-1, 1):  # nothing to transform
                return self.points
            return [0.5 * (b - a) * pt + 0.5 * (b + a) for pt in self.points]
''')],
         needs="the reference interval [-1, 1], and a caller who changes the list he got",
         breaks="the rule hands out its own table: changing the result changes the rule",
         demo='''import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
from dxss.precomp_time_int import QuadRule
r = QuadRule("Gauss-Radau", 3)
p = r.current_pts(-1, 1)
p[:] = [(x + 1) / 2 for x in p]  # to the unit interval
got = sum(float(w) * float(x) ** 2 for w, x in zip(r.t_weights(3), r.current_pts(0, 3)))
if abs(got - 9) > 1e-9:
    sys.exit(f"FAILED: integral of t^2 over [0, 3]: {got}")
'''),
    dict(id="s03-far-slabs", prop="S03", standin=True, edits=[(S, '''            if n > 0:
                for j in range(2):
                    for i in range(2):
                        self.vec_coupling1.array[
                            self.dofmaps_coupling[j][i]
                        ] = vec_in.array[self.dofmaps_full[j][coupling_idx_q + i]]
''', '''            if n > 0:
                last = len(self.dofmaps_full[0]) - 1
                for j in range(2):
                    for i in range(2):
                        self.vec_coupling1.array[
                            self.dofmaps_coupling[j][i]
                        ] = vec_in.array[
                            self.dofmaps_full[j][min(coupling_idx_q + i, last - self.otime.q, 15)]
                        ]
''')],
         needs="more than sixteen time levels", breaks="later slab interfaces are coupled with the values of an earlier one",
         demo=H + '''for N in (2, 9):
    o = make(N=N)
    o.prepare_precondition_gmres()
    a = csr(o.get_spacetime_matrix())
    b = np.random.default_rng(0).standard_normal(a.shape[0])
    x = vec(np.zeros(len(b)))
    o.apply_spacetime_matrix(vec(b), x)
    need(abs(x.array - a @ b).max() < 1e-9 * abs(a @ b).max(), f"the matrix-free product differs from the matrix for {N} slabs")
'''),
    dict(id="s10-stale-correction", prop="S10", standin=True, edits=[(S, '''        self.SolverCoarse.solve(self.tmp1_coarse, self.tmp2_coarse)
''', '''        if self.tmp1_coarse.norm() > 1e-8:  # nothing to correct otherwise
            self.SolverCoarse.solve(self.tmp1_coarse, self.tmp2_coarse)
''')],
         needs="a small right-hand side after a large one", breaks="the coarse correction of an earlier application is added",
         demo=H + '''def both(scale):
    o = with_solvers(make(N=2, nx=4))
    o.get_spacetime_rhs()
    o.prepare_coarse_grid_correction(dm.create_unit_interval(MPI.COMM_SELF, 2))
    o.set_solver_coarse(lu(o.get_spacetime_matrix_coarse()))
    b = np.random.default_rng(0).standard_normal(o.uh.x.array.size)
    first, second = vec(np.zeros(len(b))), vec(np.zeros(len(b)))
    o.pre_twolvl(vec(b), first)
    o.pre_twolvl(vec(scale * b), second)
    return first.array, second.array / scale
x, y = both(1e-10)
need(abs(x - y).max() < 1e-5 * abs(x).max(), "the two-level preconditioner is not linear")
'''),
    dict(id="m03-size-sequence", prop="M03", standin=True, edits=[(M, '''        h_scale_j = init_h_scale / (2**j)
''', '''        h_scale_j = init_h_scale / max(1, 2 * j)
''')],
         needs="at least four meshes of the convex family", breaks="from the fourth mesh on the sizes are no longer halved",
         demo=MH + '''fam = m.get_mesh_convex(5, 8.0)
for j, mesh in enumerate(fam):
    one = m.create_initial_mesh_convex(8.0 / 2**j)
    need(len(cells(mesh)) == len(cells(one)), f"mesh {j}: {len(cells(mesh))} cells instead of {len(cells(one))}")
done()
'''),
    dict(id="m04-stale-file", prop="M04", standin=True, edits=[(M, '''        gmsh.model.addPhysicalGroup(1, bnd_square, bnd_marker)
        gmsh.model.mesh.generate(2)
        gmsh.write("mesh.msh")
        gmsh.finalize()

    import meshio

    def create_mesh(mesh, cell_type, prune_z=False):
        cells = mesh.get_cells_type(cell_type)
        cell_data = mesh.get_cell_data("gmsh:physical", cell_type)
        points = mesh.points[:, :2] if prune_z else mesh.points
        return meshio.Mesh(
            points=points,
            cells={cell_type: cells},
            cell_data={"name_to_read": [cell_data]},
        )

    if proc == 0:
        # Read in mesh
        msh = meshio.read("mesh.msh")

        # Create and save one file for the mesh, and one file for the facets
        triangle_mesh = create_mesh(msh, "triangle", prune_z=True)
        line_mesh = create_mesh(msh, "line", prune_z=True)
        meshio.write("mesh.xdmf", triangle_mesh)
        meshio.write("mt.xdmf", line_mesh)

    # for i in range(n_ref):

    with XDMFFile(MPI.COMM_WORLD, "mesh.xdmf", "r") as xdmf:
        mesh = xdmf.read_mesh(name="Grid", ghost_mode=GM)
        xdmf.read_meshtags(mesh, name="Grid")
        mesh.topology.create_connectivity(mesh.topology.dim, mesh.topology.dim - 1)
    with XDMFFile(MPI.COMM_WORLD, "mt.xdmf", "r") as xdmf:
        xdmf.read_meshtags(mesh, name="Grid")
    return mesh
''', '''        gmsh.model.addPhysicalGroup(1, bnd_square, bnd_marker)
        gmsh.model.mesh.generate(2)
        from pathlib import Path

        # the standard mesh is the same every time
        if init_h_scale != 1.0 or not Path("mesh.msh").exists():
            gmsh.write("mesh.msh")
        gmsh.finalize()

    import meshio

    def create_mesh(mesh, cell_type, prune_z=False):
        cells = mesh.get_cells_type(cell_type)
        cell_data = mesh.get_cell_data("gmsh:physical", cell_type)
        points = mesh.points[:, :2] if prune_z else mesh.points
        return meshio.Mesh(
            points=points,
            cells={cell_type: cells},
            cell_data={"name_to_read": [cell_data]},
        )

    if proc == 0:
        # Read in mesh
        msh = meshio.read("mesh.msh")

        # Create and save one file for the mesh, and one file for the facets
        triangle_mesh = create_mesh(msh, "triangle", prune_z=True)
        line_mesh = create_mesh(msh, "line", prune_z=True)
        meshio.write("mesh.xdmf", triangle_mesh)
        meshio.write("mt.xdmf", line_mesh)

    # for i in range(n_ref):

    with XDMFFile(MPI.COMM_WORLD, "mesh.xdmf", "r") as xdmf:
        mesh = xdmf.read_mesh(name="Grid", ghost_mode=GM)
        xdmf.read_meshtags(mesh, name="Grid")
        mesh.topology.create_connectivity(mesh.topology.dim, mesh.topology.dim - 1)
    with XDMFFile(MPI.COMM_WORLD, "mt.xdmf", "r") as xdmf:
        xdmf.read_meshtags(mesh, name="Grid")
    return mesh
''')],
         needs="the default size factor, and a mesh file of an earlier call in the working directory",
         breaks="the mesh of another generator is returned",
         demo=MH + '''m.get_mesh_data_all_around(0, 3.0)
mesh = m.create_initial_mesh_convex()
x = cells(mesh).reshape(-1, 3, 2)
hit = (x[:, :, 1] <= 0.25 + 1e-9).all(axis=1) & (x[:, :, 0] >= 0.1 - 1e-9).all(axis=1) & (x[:, :, 0] <= 0.9 + 1e-9).all(axis=1)
os.remove("mesh.msh")
again = m.create_initial_mesh_convex()
need(len(cells(again)) == len(cells(mesh)), f"{len(cells(mesh))} cells after another generator, {len(cells(again))} alone")
done()
'''),
]
