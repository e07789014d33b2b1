"""Planted bugs: more of the probes that the checks missed at first, and a few others."""
from defs_b import H, S
from defs_c import M, MH

BUGS = [
    dict(id="s10-first-coarse-mesh", prop="S10", standin=True, edits=[(S, '''        self.msh_coarse = msh_coarse
''', '''        if self.msh_coarse is None:
            self.msh_coarse = msh_coarse
''')],
         needs="a second coarse mesh for the same solver object", breaks="the coarse problem stays on the first coarse mesh",
         demo=H + '''o = make(N=2, nx=8)
o.get_spacetime_rhs()
for n in (2, 4):
    o.prepare_coarse_grid_correction(dm.create_unit_interval(MPI.COMM_SELF, n))
a = csr(o.get_spacetime_matrix_coarse())
b = csr(make(N=2, nx=4).get_spacetime_matrix())
need(a.shape == b.shape, f"the coarse matrix has shape {a.shape} instead of {b.shape}")
'''),
    dict(id="m01-size-clamp", prop="M01", standin=True, edits=[(M, '''def get_mesh_hierarchy_nonconvex(n_ref, init_h_scale=1.0):  # noqa: PLR0915
    # TODO: remove suppression of PLR0915 when refactored
    gmsh.initialize()
''', '''def get_mesh_hierarchy_nonconvex(n_ref, init_h_scale=1.0):  # noqa: PLR0915
    # TODO: remove suppression of PLR0915 when refactored
    init_h_scale = min(init_h_scale, 2.0)
    gmsh.initialize()
''')], needs="size factors above 2", breaks="the size factor has no effect beyond 2: no coarser meshes can be made", demo=MH + '''a, b = (m.get_mesh_hierarchy_nonconvex(0, init_h_scale=s)[0] for s in (2.5, 5.0))
need(len(cells(b)) < len(cells(a)), f"size factor 2.5: {len(cells(a))} cells, 5: {len(cells(b))} cells")
done()
'''),
    dict(id="s08-short-horizon", prop="S08", standin=True, edits=[(S, '''np.linspace(0, self.T, 105)''', '''np.linspace(0, max(self.T, 0.1), 105)''')],
         needs="a final time below 0.1", breaks="few of the sample times lie within the time interval and its end is left out",
         demo=H + '''o = make(N=1, T=0.03, sol=(lambda t, x: t + 0 * x[0], lambda t, x: 1 + 0 * x[0]))
e = o.measured_errors(vec(np.zeros(o.uh.x.array.size)))
need(abs(e["L-infty-L2-error-u"] - 0.03) < 1e-9, f"largest error {e['L-infty-L2-error-u']}, expected 0.03")
'''),
    dict(id="s06-many-slabs", prop="S06", standin=True, edits=[(S, '''            if n == 0:
                self.SolverFirstSlab.solve(b_rhs_pre, self.uh_pre.vector)
''', '''            if t_first <= n * delta_t < t_first + 1e-2 * self.T:
                self.SolverFirstSlab.solve(b_rhs_pre, self.uh_pre.vector)
'''), (S, '''        # retrieve stabilization parameter
        gamma_primal_jump = self.stabilisation_terms["primal-jump"]

        for n in range(self.N):
            n * delta_t

            l_pre''', '''        # retrieve stabilization parameter
        gamma_primal_jump = self.stabilisation_terms["primal-jump"]
        t_first = self.t

        for n in range(self.N):
            n * delta_t

            l_pre''')],
         needs="more than a hundred slabs", breaks="the second slab is solved with the matrix of the first one",
         demo=H + '''o = with_solvers(make(N=101, nx=1, q=0, qs=0))
a = csr(o.get_spacetime_matrix(precond=True))
b = np.random.default_rng(0).standard_normal(a.shape[0])
x = vec(np.zeros(len(b)))
o.pre_time_marching(vec(b), x)
need(abs(a @ x.array - b).max() < 1e-6, "the preconditioner does not invert its matrix")
'''),
    dict(id="s03-level-cache", prop="S03", standin=True, edits=[(S, '''            if n > 0:
                for j in range(2):
                    for i in range(2):
                        self.vec_coupling1.array[
                            self.dofmaps_coupling[j][i]
                        ] = vec_in.array[self.dofmaps_full[j][coupling_idx_q + i]]
''', '''            if n > 0:
                ends = [
                    [vec_in.array[self.dofmaps_full[j][coupling_idx_q + i]] for i in range(2)]
                    for j in range(2)
                ]
                if np.allclose(ends[0][0], ends[0][1], atol=1e-8, rtol=0.0) and np.allclose(
                    ends[1][0], ends[1][1], atol=1e-8, rtol=0.0,
                ):
                    ends[0][1] = ends[0][0]  # continuous
                    ends[1][1] = ends[1][0]
                for j in range(2):
                    for i in range(2):
                        self.vec_coupling1.array[self.dofmaps_coupling[j][i]] = ends[j][i]
''')],
         needs="a vector whose jumps are below 1e-8", breaks="small jumps between slabs are dropped from the product",
         demo=H + '''o = make(N=3)
o.prepare_precondition_gmres()
a = csr(o.get_spacetime_matrix())
b = 1e-9 * np.random.default_rng(0).standard_normal(a.shape[0])
x = vec(np.zeros(len(b)))
o.apply_spacetime_matrix(vec(b), x)
need(abs(x.array - a @ b).max() < 1e-7 * abs(a @ b).max(), "the matrix-free product differs from the matrix")
'''),
]
