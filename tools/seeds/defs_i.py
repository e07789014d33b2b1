"""Planted bugs: rare sizes of the parameters, partial initial data."""
from defs_b import H, S

BUGS = [
    dict(id="s05-velocity-only", prop="S05", standin=True, edits=[(S, '''            if n == 0 and self.well_posed:
                print("Adding initial data on right hand side")
''', '''            if n == 0 and self.well_posed and np.any(self.u1_0.x.array):
                print("Adding initial data on right hand side")
''')],
         needs="a well-posed problem that starts from rest position with a nonzero velocity", breaks="the initial velocity is ignored when the initial displacement vanishes",
         demo=H + '''o = make(wp=True, N=2, sol=(lambda t, x: 0 * x[0], lambda t, x: 0 * x[0]))
o.u2_0.interpolate(lambda x: x[0] * (1 - x[0]))
b = np.array(o.get_spacetime_rhs().array)
need(abs(b[o.dofmaps_full[1][0]]).max() > 1e-6, "the initial velocity does not enter the right-hand side")
'''),
    dict(id="s04-data-cap", prop="S04", standin=True, edits=[(S, '''        gamma_primal_jump = self.stabilisation_terms["primal-jump"]
        gamma_data = self.stabilisation_terms["data"]

        int_idx_q = 0
        coupling_idx_q = -1
        int_idx_qstar = 0
        coupling_idx_qstar = -1

        L =''', '''        gamma_primal_jump = self.stabilisation_terms["primal-jump"]
        gamma_data = min(self.stabilisation_terms["data"], 1e3)

        int_idx_q = 0
        coupling_idx_q = -1
        int_idx_qstar = 0
        coupling_idx_qstar = -1

        L =''')],
         needs="a data weight above 1000", breaks="matrix and right-hand side weigh the data differently, so exact solutions no longer satisfy the system",
         demo=H + '''g = {"data": 1e4, "dual": 1.0, "primal": 1e-3, "primal-jump": 1.0}
o = make(N=2, k=2, q=1, stabs=g, sol=(lambda t, x: t * 1.0 + 0 * x[0], lambda t, x: 1.0 + 0 * x[0]))
b = np.array(o.get_spacetime_rhs().array)
g["data"] = 1e2
p = make(N=2, k=2, q=1, stabs=g, sol=(lambda t, x: t * 1.0 + 0 * x[0], lambda t, x: 1.0 + 0 * x[0]))
c = np.array(p.get_spacetime_rhs().array)
need(abs(b - 100 * c).max() < 1e-9 * abs(b).max(), f"a hundred times the data weight gives {abs(b).max() / abs(c).max():.3g} times the right-hand side")
'''),
    dict(id="s01-high-order", prop="S01", standin=True, edits=[(S, '''        self.metadata = {"quadrature_degree": 2 * self.ospace.k + 3}
''', '''        self.metadata = {"quadrature_degree": min(2 * self.ospace.k + 3, 9)}
''')],
         needs="polynomial order in space of at least five, or of four with dual order five", breaks="the forms are under-integrated",
         demo=H + '''o = make(N=1, k=5, ks=1, q=0, qs=0, nx=1, stabs={"data": 1.0, "dual": 1.0, "primal": 1e-15, "primal-jump": 1.0}, omega=stm.DataDomain(indicator_function=lambda x: 1.0 + 0 * x[0], fitted=True))
a = csr(o.get_spacetime_matrix()).toarray()
d = o.dofmaps_full[0][0]
m = a[np.ix_(d, d)]
p = np.sort(o.fes_u1_0.tabulate_dof_coordinates()[:, 0])
x = o.fes_u1_0.tabulate_dof_coordinates()[:, 0] ** 5
need(abs(x @ m @ x - 1 / 11) < 1e-9, f"the data term of x^5 with itself is {x @ m @ x}, expected 1/11")
'''),
]
