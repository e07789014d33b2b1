"""Planted bugs: space-time discretisation."""
S = "src/dxss/space_time.py"
H = "from st_common import *\n\n"
TRI = '''                if abs(elmat_time["M_time_q_qstar"][k, j]) > 1e-10:
'''
BUGS = [
    dict(id="s01-initial-velocity", prop="S01", standin=True, edits=[(S, '''            if n == 0 and self.well_posed:
                print("Adding initial data.")
                a += (
                    gamma_primal_jump * (1 / delta_t) * inner(u1[0], w1[0]) * dx
                    + gamma_primal_jump * delta_t * inner(grad(u1[0]), grad(w1[0])) * dx
                )
                a +=''', '''            if n == 0 and self.well_posed:
                print("Adding initial data.")
                a += gamma_primal_jump * (
                    (1 / delta_t) * inner(u1[0], w1[0]) * dx
                    + delta_t * inner(grad(u1[0]), grad(w1[0])) * dx
                )
                a -='''),],
         needs="a well-posed problem", breaks="the initial velocity is penalised with the wrong sign in the assembled matrix",
         demo=H + '''o = make(wp=True)
a = csr(o.get_spacetime_matrix())
x = np.zeros(a.shape[0])
x[o.dofmaps_full[1][0]] = 1.0
b = csr(make(wp=False).get_spacetime_matrix())
need(x @ (a @ x) - x @ (b @ x) > 0, "the penalty of the initial velocity is negative")
'''),
    dict(id="s02-jump-stab-sign", prop="S02", standin=True, edits=[(S, '''            if self.jumps_in_fw_problem and n > 0:
                a -= (
                    gamma_dual
                    * delta_t
                    * inner(y2[coupling_idx_qstar + 1], z2[coupling_idx_qstar + 1])
                    * dx
                )
''', '''            if self.jumps_in_fw_problem and n > 0:
                a -= (
                    gamma_dual
                    * delta_t
                    * inner(y2[coupling_idx_qstar], z2[coupling_idx_qstar + 1])
                    * dx
                )
''')],
         needs="forward jumps and at least two slabs", breaks="the dual stabilisation couples two slabs unsymmetrically",
         demo=H + '''a = csr(make(jumps=True, N=3).get_spacetime_matrix()).toarray()
need(abs(a - a.T).max() < 1e-10 * abs(a).max(), "the matrix is not symmetric")
'''),
    dict(id="s03-dual-offset", prop="S03", standin=True, edits=[(S, '''                    for i in range(2):
                        vec_out.array[
                            self.dofmaps_full[j][coupling_idx_q + i]
                        ] += self.vec_coupling2.array[self.dofmaps_coupling[j][i]]

            int_idx_q += self.otime.q + 1
            coupling_idx_q += self.otime.q + 1
            int_idx_qstar += self.otime.qstar + 1
''', '''                    for i in range(2):
                        vec_out.array[
                            self.dofmaps_full[j][coupling_idx_q + i]
                        ] += self.vec_coupling2.array[self.dofmaps_coupling[j][i]]

            int_idx_q += self.otime.q + 1
            coupling_idx_q += self.otime.q + 1
            int_idx_qstar += min(self.otime.q, self.otime.qstar) + 1
''')],
         needs="dual order in time above the primal one and several slabs", breaks="dual results go to the wrong slab in the matrix-free product",
         demo=H + '''for q, qs in ((1, 1), (1, 0), (1, 2), (0, 1)):
    o = with_solvers(make(q=q, qs=qs, N=3))
    a = csr(o.get_spacetime_matrix())
    x = np.random.default_rng(0).standard_normal(a.shape[0])
    y = vec(np.zeros(len(x)))
    o.apply_spacetime_matrix(vec(x), y)
    need(abs(y.array - a @ x).max() < 1e-9 * abs(a @ x).max(), f"product differs for {q}, {qs}")
'''),
    dict(id="s04-transposed-pair", prop="S04", standin=True, edits=[(S, '''                        * elmat_time["DM_time_q_q"][k, j]
                        * inner(u2[int_idx_q + j], div(grad(w1[int_idx_q + k])))
''', '''                        * (elmat_time["DM_time_q_q"].T)[k, j]
                        * inner(u2[int_idx_q + j], div(grad(w1[int_idx_q + k])))
'''), (S, '''                        * (elmat_time["DM_time_q_q"].T)[k, j]
                        * inner(div(grad(u1[int_idx_q + j])), w2[int_idx_q + k])
''', '''                        * elmat_time["DM_time_q_q"][k, j]
                        * inner(div(grad(u1[int_idx_q + j])), w2[int_idx_q + k])
''')],
         needs="second order in space (otherwise the Laplacian of the basis vanishes); the two sites keep the matrix symmetric",
         breaks="the residual stabilisation no longer vanishes on solutions of the wave equation",
         demo=H + '''v = lambda t, x: x[0] * x[0] + t * t
vt = lambda t, x: 2.0 * t + 0.0 * x[0]
o = make(q=2, qs=1, k=2, ks=1, N=2, nx=4, sol=(v, vt), stabs={"data": 0.0, "dual": 1.0, "primal": 1.0, "primal-jump": 1.0})
a = csr(o.get_spacetime_matrix())
x = np.zeros(a.shape[0])
pts = o.fes_u1_0.tabulate_dof_coordinates()[:, 0]
# the exact displacement and velocity are in the discrete space
for n in range(2):
    for l in range(3):
        t = 0.5 * (n + l / 2)
        x[o.dofmaps_full[0][3 * n + l]] = pts**2 + t * t
        x[o.dofmaps_full[1][3 * n + l]] = 2 * t
r = a @ x
inner = np.concatenate([np.asarray(d)[(pts > 0.3) & (pts < 0.7)] for d in o.dofmaps_full[0] + o.dofmaps_full[1]])
need(abs(r[inner]).max() < 1e-8, f"residual {abs(r[inner]).max()} of an exact solution away from the boundary")
'''),
    dict(id="s05-rhs-gradient", prop="S05", standin=True, edits=[(S, '''                    gamma_primal_jump * (1 / delta_t) * inner(self.u1_0, w1[0]) * dx
                    + gamma_primal_jump
                    * delta_t
                    * inner(grad(self.u1_0), grad(w1[0]))
''', '''                    gamma_primal_jump * (1 / delta_t) * inner(self.u1_0, w1[0]) * dx
                    + gamma_primal_jump
                    * self.T
                    * inner(grad(self.u1_0), grad(w1[0]))
''')],
         needs="a well-posed problem with several slabs and initial data that is not constant in space",
         breaks="the initial displacement enters the right-hand side with a penalty that the matrix does not have",
         demo=H + '''o = make(wp=True, N=3, stabs={"data": 0.0, "dual": 1.0, "primal": 1.0, "primal-jump": 1.0})
o.u1_0.interpolate(lambda x: x[0] * (1 - x[0]))
b = np.array(o.get_spacetime_rhs().array)
a = csr(o.get_spacetime_matrix()) - csr(make(wp=False, N=3, stabs={"data": 0.0, "dual": 1.0, "primal": 1.0, "primal-jump": 1.0}).get_spacetime_matrix())
x = np.zeros(len(b))
x[o.dofmaps_full[0][0]] = o.u1_0.x.array
need(abs(a @ x - b).max() < 1e-9, "matrix and right-hand side penalise different initial data")
'''),
    dict(id="s06-stale-coupling", prop="S06", standin=True, edits=[(S, '''        self.stabilisation_terms["primal-jump"]  # TODO: check why this is here

        self.b_rhs_pre.array[:] = 0.0

''', '''        self.stabilisation_terms["primal-jump"]  # TODO: check why this is here

''')],
         needs="two applications of the improved preconditioner with the same object",
         breaks="the last slab's coupling of the previous application enters the first slab of the next one",
         demo=H + '''o = with_solvers(make(N=2))
n = csr(o.get_spacetime_matrix()).shape[0]
b, x, y = vec(np.random.default_rng(0).standard_normal(n)), vec(np.zeros(n)), vec(np.zeros(n))
o.pre_time_marching_improved(b, x)
o.pre_time_marching_improved(b, y)
need(abs(x.array - y.array).max() < 1e-9 * abs(x.array).max(), "the second application gives another result")
'''),
    dict(id="s08-interface-sample", prop="S08", standin=True, edits=[(S, '''                self.u1_minus.x.array[:] = u1_h.x.array[
                    self.dofmaps_full[0][int_idx - 1]
                ]
''', '''                self.u1_minus.x.array[:] = u1_h.x.array[
                    self.dofmaps_full[0][int_idx - self.otime.q]
                ]
''')],
         needs="order in time other than one, several slabs, and a discrete function with jumps",
         breaks="the lifting uses a wrong value of the previous slab, so errors are those of another function",
         demo=H + '''z = lambda t, x: 0.0 * x[0]
o = make(q=2, qs=1, N=2, sol=(z, z))
x = np.zeros(csr(o.get_spacetime_matrix()).shape[0])
# slab-wise polynomial 0, 0, 1 on the first slab and constant 1 on the second: continuous, so nothing to lift
for l in (2, 3, 4, 5):
    x[o.dofmaps_full[0][l]] = 1.0
e = o.measured_errors(vec(x))
need(abs(e["L2-u1-T"] - 1) < 1e-9, e)
ref = np.sqrt(14.0 / 3.0)  # derivative 2 (4 s - 1) on the first slab of length 1/2, zero on the second
need(abs(e["L2-L2-error-u_t"] - ref) < 1e-3 * ref, (e, ref))
'''),
    dict(id="s09-coarse-indicator", prop="S09", standin=True, edits=[(S, '''            omega_ind = fem.Function(q_ind)
            omega_ind.interpolate(self.omega.indicator_function)
''', '''            omega_ind = fem.Function(q_ind)
            omega_ind.interpolate(self.omega.indicator_function)
            self.omega.indicator_function = omega_ind
''')],
         needs="the fine matrix requested after the coarse-grid correction was prepared",
         breaks="the data domain of the object is replaced by its coarse interpolation",
         demo=H + '''def one(coarse):
    o = make(nx=8, omega=stm.DataDomain(indicator_function=lambda x: (x[0] <= 0.125).astype(float), fitted=True))
    o.prepare_precondition_gmres()
    if coarse:
        o.prepare_coarse_grid_correction(dm.create_unit_interval(MPI.COMM_SELF, 2))
    return o.get_spacetime_matrix()


try:
    a, b = csr(one(False)), csr(one(True))
except Exception as e:  # noqa: BLE001
    need(False, f"the matrix cannot be assembled after preparing the coarse grid: {e!r}")
need(abs(a - b).max() < 1e-12 * abs(a).max(), "the fine matrix changed when the coarse grid was prepared")
'''),
    dict(id="s10-restriction-shift", prop="S10", standin=True, edits=[(S, '''            int_idx_qstar += self.otime.qstar + 1
            int_idx_q += self.otime.q + 1

    def q_op''', '''            int_idx_qstar += self.otime.qstar + 1
            int_idx_q = int_idx_qstar

    def q_op''')],
         needs="different orders in time for primal and dual variables and several slabs",
         breaks="restriction reads and writes the wrong time levels of the primal variables",
         demo=H + '''o = make(q=2, qs=1, nx=4, N=3)
o.get_spacetime_rhs()
o.prepare_coarse_grid_correction(dm.create_unit_interval(MPI.COMM_SELF, 2))
nc, nf = o.get_spacetime_matrix_coarse().getSize()[0], o.get_spacetime_matrix().getSize()[0]
x, f, y = vec(np.random.default_rng(0).standard_normal(nc)), vec(np.zeros(nf)), vec(np.zeros(nc))
o.prolongation(x, f)
o.restriction(y, f)
need(abs(x.array - y.array).max() < 1e-10, "restricting a prolongated function does not return it")
'''),
    dict(id="s10-residual-in-place", prop="S10", standin=True, edits=[(S, '''        self.tmp5_sol.array[:] = b.array[:]
        self.tmp5_sol.array[:] -= self.tmp4_sol.array[:]
        self.pre_time_marching(self.tmp5_sol, self.tmp6_sol)
''', '''        b.axpy(-1.0, self.tmp4_sol)
        self.pre_time_marching(b, self.tmp6_sol)
''')],
         needs="the right-hand side used again after the two-level preconditioner was applied to it",
         breaks="the two-level preconditioner overwrites its input with the residual",
         demo=H + '''o = with_solvers(make(nx=4))
o.prepare_coarse_grid_correction(dm.create_unit_interval(MPI.COMM_SELF, 2))
o.set_solver_coarse(lu(o.get_spacetime_matrix_coarse()))
n = o.get_spacetime_matrix().getSize()[0]
b0 = np.random.default_rng(0).standard_normal(n)
b, x = vec(b0), vec(np.zeros(n))
o.pre_twolvl(b, x)
need(np.array_equal(b.array, b0), "the input was changed")
'''),
    dict(id="s11-shared-stabs", prop="S11", standin=True, edits=[(S, '''        self.stabilisation_terms = stabilisation_terms
        self.jumps_in_fw_problem''', '''        self.stabilisation_terms = stabilisation_terms
        if not self.ospace.k > 1:  # second-order terms vanish
            self.stabilisation_terms["primal"] = max(
                self.stabilisation_terms["primal"],
                1e-3,
            )
        self.jumps_in_fw_problem''')],
         needs="a stabilisation dictionary with a small primal parameter shared by a first-order and a second-order problem",
         breaks="building one problem changes the parameters of the caller and of problems built from the same dictionary",
         demo=H + '''d = {"data": 1.0, "dual": 1.0, "primal": 1e-6, "primal-jump": 1.0}
msh = dm.create_unit_interval(MPI.COMM_SELF, 4)
for k in (2, 1):
    stm.SpaceTime(stm.OrderTime(1, 1), stm.OrderSpace(k, 1), N=2, T=1.0, t=0.0, msh=msh, stabilisation_terms=d,
                  omega=stm.DataDomain(indicator_function=ends), solution=stm.ValueAndDerivative(u, ut))
    need(d["primal"] == 1e-6, "the caller's stabilisation parameters changed")
'''),
    dict(id="s12-abs-inside", prop="S12", standin=True, edits=[(S, '''                    uh_at_ti = trafo(
                        sum(
                            [
                                self.phi_trial[ell]((time_ti - t_n) / delta_t)
                                * space_val_ti[ell, j]
                                for ell in range(self.otime.q + 1)
                            ],
                        ),
                    )
''', '''                    uh_at_ti = sum(
                        [
                            self.phi_trial[ell]((time_ti - t_n) / delta_t)
                            * trafo(space_val_ti[ell, j])
                            for ell in range(self.otime.q + 1)
                        ],
                    )
''')],
         needs="a magnitude plot of a function that changes sign within a slab",
         breaks="the plot shows the interpolation of the magnitudes instead of the magnitude",
         demo="import os\nos.environ['MPLBACKEND'] = 'Agg'\n" + H + '''import matplotlib.pyplot as plt

got = []
real = plt.pcolormesh
plt.pcolormesh = lambda *a, **k: (got.append(np.array(a[2])), real(*a, **k))[1]
o = make(N=1)
x = np.zeros(o.get_spacetime_matrix().getSize()[0])
x[o.dofmaps_full[0][0]] = 1.0
x[o.dofmaps_full[0][1]] = -1.0
o.plot(vec(x), n_space=5, n_time_subdiv=4, abs_val=True)
need(np.allclose(got[0][:, 2], [1.0, 0.5, 0.0, 0.5]), got[0][:, 2])
'''),
    dict(id="s13-nitsche-power", prop="S04", standin=True, edits=[(S, '''                        delta_t
                        * elmat_time["M_time_q_qstar"][k, j]
                        * inner(n_facet, grad(u1_p[j]))
                        * y1_p[k]
                        * ds
''', '''                        delta_t
                        * elmat_time["M_time_q_qstar"][k, j]
                        * inner(n_facet, grad(y1_p[k]))
                        * u1_p[j]
                        * ds
'''), (S, '''                            * inner(n_facet, grad(u1[int_idx_q + j]))
                            * y1[int_idx_qstar + k]
                            * ds
''', '''                            * inner(n_facet, grad(y1[int_idx_qstar + k]))
                            * u1[int_idx_q + j]
                            * ds
'''), (S, '''                        * inner(n_facet, grad(w1_p[j]))
                        * z1_p[k]
''', '''                        * inner(n_facet, grad(z1_p[k]))
                        * w1_p[j]
'''), (S, '''                            * inner(n_facet, grad(w1[int_idx_q + j]))
                            * z1[int_idx_qstar + k]
''', '''                            * inner(n_facet, grad(z1[int_idx_qstar + k]))
                            * w1[int_idx_q + j]
''')],
         needs="a solution with a nonzero normal derivative at the boundary; the four sites agree with each other",
         breaks="the Nitsche term is replaced by its transpose: the scheme is no longer consistent",
         demo=H + '''v = lambda t, x: x[0] * (1 - x[0]) - t * t
o = make(q=2, qs=1, k=2, ks=1, N=2, sol=(v, lambda t, x: -2.0 * t + 0.0 * x[0]), stabs={"data": 0.0, "dual": 1.0, "primal": 1e-12, "primal-jump": 1.0})
a = csr(o.get_spacetime_matrix())
x = np.zeros(a.shape[0])
pts = o.fes_u1_0.tabulate_dof_coordinates()[:, 0]
for n in range(2):
    for l in range(3):
        t = 0.5 * (n + l / 2)
        x[o.dofmaps_full[0][3 * n + l]] = pts * (1 - pts) - t * t
        x[o.dofmaps_full[1][3 * n + l]] = -2 * t
r = a @ x
dual = np.concatenate([np.asarray(d) for d in o.dofmaps_full[2] + o.dofmaps_full[3]])
need(abs(r[dual]).max() < 1e-8, f"residual {abs(r[dual]).max()} of an exact solution in the equation")
'''),
]
