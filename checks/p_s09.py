"""S09: results do not depend on the order and history of calls, nor on other problems in the process."""
import numpy as np
import scipy.linalg as sl
from hypothesis import strategies as st

from vh import poly, stx
from vh.core import HarnessError, Info, Prop, Sub, require
from p_s06 import Dense

OPS = ["matrix", "matrix-pre", "bfi", "bfi-pre", "rhs", "lfi", "slab", "slab-bfi", "first-slab", "prepare", "apply", "march",
       "march-improved", "errors", "paraview", "setup-rhs", "setup-slab", "setup-slab-nojump", "initial",
       "coarse", "coarse-matrix", "coarse-op", "two-level", "transfer", "plot", "plot-error"]


class Perturbed(Dense):
    """The same solver for a matrix that differs by rounding (more than a different order of summation can cause)."""

    def __init__(self, A):
        super().__init__(A)
        r = np.random.default_rng(1).standard_normal((2, *self.M.shape))
        big = np.abs(self.M).max(1)
        self.M = self.M * (1 + 1e-13 * r[0]) + 1e-15 * r[1] * np.sqrt(np.outer(big, big))
        self.lu = sl.lu_factor(self.M, check_finite=False)


def problem(c, i, mesh=None):
    from dxss.space_time import ValueAndDerivative

    d = stx.KINDS[c["mesh"]["kind"]]
    u = poly.general(d, c["sol"], 2, 2)
    ut = u.dt()
    B = stx.build(c, solution=ValueAndDerivative(lambda t, x: u(t, x), lambda t, x: ut(t, x)), mesh=mesh)
    B.u, B.ut = u, ut
    return B


class Runner:
    """Runs operations on one object; `value` of an operation is what the caller sees."""

    def __init__(self, c, data, solver=Dense):
        self.c, self.B, self.solver = c, problem(c, 0), solver
        self.s, self.data = self.B.st, data
        self.prepared = self.solvers = False
        self.coarse = None
        self.ini = 0
        self.rhs_ini = None
        self.set_initial(0)

    def set_initial(self, k):
        self.ini = k
        rng = np.random.default_rng([self.c["vseed"], k])
        self.s.u1_0.x.array[:] = rng.standard_normal(self.B.L.ns[0])
        self.s.u2_0.x.array[:] = rng.standard_normal(self.B.L.ns[1])

    def need(self):
        if not self.prepared:
            self.s.prepare_precondition_gmres()
            self.prepared = True
            if self.rhs_ini is None:
                self.rhs_ini = self.ini

    def need_solvers(self):
        self.need()
        if not self.solvers:
            self.s.set_solver_slab(self.solver(self.s.get_slab_matrix()))
            self.s.set_solver_first_slab(self.solver(self.s.get_slab_matrix_first_slab()))
            self.solvers = True

    def need_coarse(self, k, solver=False):
        """Coarse-grid correction on coarse mesh k; None: on the one prepared last."""
        from dolfinx import _engine as E

        s = self.s
        if k is not None or self.coarse is None:
            k = k or 0
            s.get_spacetime_rhs()  # documented order: the right-hand side comes first
            if self.rhs_ini is None:
                self.rhs_ini = self.ini
            m = {**self.c["mesh"], "jitter": 0.0, "n": [min(v, 1 + k) for v in self.c["mesh"]["n"]]}
            E.config.dof_seed = self.c["dof_seed"]  # the numbering on the coarse mesh, too, belongs to the problem
            s.prepare_coarse_grid_correction(stx.build_mesh(m))
            self.coarse, self.coarse_solver = k, False
        if solver and not self.coarse_solver:
            s.set_solver_coarse(self.solver(s.get_spacetime_matrix_coarse()))
            self.coarse_solver = True
        return self.coarse

    def asm(self, form):
        from dolfinx.fem.petsc import assemble_matrix

        A = assemble_matrix(form)
        A.assemble()
        return stx.csr(A)

    def asm_vec(self, form):
        from dolfinx import fem

        b = fem.petsc.create_vector(form)
        fem.petsc.assemble_vector(b, form)
        return np.array(b.array)

    def run_coarse(self, op, arg, fresh):
        s = self.s
        if op == "two-level" and self.c["jumps"]:
            op = "coarse-op"
        k = self.need_coarse(arg // 3 if fresh else None, solver=op != "transfer")
        v = stx.vec(self.data(self.c, arg % 3, self.B.L.n))
        v0 = np.array(v.array)
        out = stx.vec(np.full(self.B.L.n, 7.0e3))
        if op == "transfer":
            w = s.get_spacetime_matrix_coarse().createVecs()[0]
            w.array[:] = 3.0
            s.restriction(w, v)
            s.prolongation(w, out)
            val = np.concatenate([w.array, out.array])
        elif op == "coarse-op":
            s.q_op(v, out)
            val = np.array(out.array)
        else:
            self.need_solvers()
            s.pre_twolvl(v, out)
            val = np.array(out.array)
        require(np.array_equal(v.array, v0), f"{op}: the input vector was modified")
        return (op, arg % 3 + 3 * k), val

    def run(self, op, arg, fresh=False):
        """(label, value or None)"""
        s, n = self.s, self.B.L.n
        if op == "matrix":
            return ("matrix", 0), stx.csr(s.get_spacetime_matrix()) if arg % 2 else stx.csr(s.get_spacetime_matrix(precond=False))
        if op == "matrix-pre":
            return ("matrix", 1), stx.csr(s.get_spacetime_matrix(precond=True))
        if op == "bfi":
            return ("matrix", 0), self.asm(s.get_spacetime_bfi())
        if op == "bfi-pre":
            return ("matrix", 1), self.asm(s.get_spacetime_bfi(precond=True))
        if op in ("rhs", "lfi", "setup-rhs"):
            if op == "setup-rhs":
                s.setup_rhs()
                self.rhs_ini = self.ini
            elif self.rhs_ini is None:
                self.rhs_ini = self.ini
            if op == "lfi":
                form = s.get_spacetime_lfi()
                if self.c["wp"] and self.ini != self.rhs_ini:
                    return None, None  # a form may refer to the present or to the earlier initial data
                return ("rhs", self.rhs_ini if self.c["wp"] else 0), self.asm_vec(form)
            return ("rhs", self.rhs_ini if self.c["wp"] else 0), np.array(s.get_spacetime_rhs().array)
        if op == "slab":
            return ("slab", 0), stx.csr(s.get_slab_matrix())
        if op == "slab-bfi":
            return ("slab", 0), self.asm(s.get_slab_bfi())
        if op == "first-slab":
            if arg % 2:
                return ("first", 0), self.asm(s.get_slab_bfi_first_slab())
            return ("first", 0), stx.csr(s.get_slab_matrix_first_slab())
        if op == "prepare":
            s.prepare_precondition_gmres()
            self.prepared = True
            if self.rhs_ini is None:
                self.rhs_ini = self.ini
            return None, None
        if op == "setup-slab":
            s.setup_slab_matrix(with_jumps=True)
            return None, None
        if op == "setup-slab-nojump":
            s.setup_slab_matrix(with_jumps=False)
            return None, None
        if op == "initial":
            self.set_initial(arg % 3)
            return None, None
        if op == "coarse":
            self.need_coarse(arg % 2)
            return None, None
        if op == "coarse-matrix":
            k = self.need_coarse(arg // 3 if fresh else None)
            return ("coarse-matrix", 3 * k), stx.csr(s.get_spacetime_matrix_coarse())
        if op in ("coarse-op", "two-level", "transfer"):
            return self.run_coarse(op, arg, fresh)
        if op in ("plot", "plot-error") and (self.c["mesh"]["lo"] != 0.0 or self.c["mesh"]["len"][0] < 1.0 or len(self.c["mesh"]["n"]) > 1):
            op = "errors"
        v = stx.vec(self.data(self.c, arg % 3, n))
        v0 = np.array(v.array)
        out = stx.vec(np.full(n, 7.0e3))
        if op == "apply":
            self.need()
            s.apply_spacetime_matrix(v, out)
            val = np.array(out.array)
        elif op in ("march", "march-improved"):
            self.need_solvers()
            if op == "march" or self.c["jumps"]:
                s.pre_time_marching(v, out)
                op = "march"
            else:
                s.pre_time_marching_improved(v, out)
            val = np.array(out.array)
        elif op == "errors":
            e = s.measured_errors(v)
            val = np.array([float(e[k]) for k in sorted(e)])
        elif op in ("plot", "plot-error"):

            from p_s12 import Recorder

            with Recorder() as rec:
                (s.plot if op == "plot" else s.plot_error)(v, n_space=4, n_time_subdiv=2)
            val = np.concatenate([np.asarray(a[-1], dtype=float).ravel() for a in rec.calls])
        elif op == "paraview":
            from dolfinx import _engine as E

            E.config.xdmf_log = []
            s.plot_para_view(v, name="h")
            val = None
        else:
            raise HarnessError(op)
        require(np.array_equal(v.array, v0), f"{op}: the input vector was modified")
        return (None, None) if val is None else ((op, arg % 3), val)


def data(c, k, n):
    return np.random.default_rng([c["vseed"], 77, k]).standard_normal(n)


def dist(a, b):
    if hasattr(a, "tocsr"):
        if a.shape != b.shape:
            return np.inf, 1.0
        return abs(a - b).max(), abs(b).max()
    if np.shape(a) != np.shape(b):
        return np.inf, 1.0
    return float(np.abs(a - b).max()), float(np.abs(b).max())


def check(h):
    runners = [Runner(c, data) for c in h["problems"]]
    fresh = {}
    checked, ops_done = 0, set()
    ops = [(i % len(runners), op, arg) for i, op, arg in h["ops"]]
    # at the end, the right-hand side requested earlier must still be there
    ops += [(i, "final-rhs", 0) for i in range(len(runners))]
    for i, op, arg in ops:
        r = runners[i]
        if op == "final-rhs":
            if r.rhs_ini is None:
                continue
            op = "rhs"
        key, val = r.run(op, arg)
        ops_done.add((i, op))
        if key is None:
            continue
        if (i, key) not in fresh:
            # a new object on which nothing else has been done
            f = Runner(h["problems"][i], data)
            if key[0] == "rhs":
                f.set_initial(key[1])
                ref = np.array(f.s.get_spacetime_rhs().array)
            else:
                back = {"matrix": "matrix-pre" if key[1] else "matrix", "slab": "slab", "first": "first-slab"}.get(key[0], key[0])
                k2, ref = f.run(back, key[1], fresh=True)
                if k2 != key:
                    raise HarnessError(f"{k2} {key}")
            slack = 0.0
            if key[0] in ("march", "march-improved", "coarse-op", "two-level"):
                # matrices of two objects may differ by rounding: how much of it do the solves amplify?
                slack = 10 * dist(Runner(h["problems"][i], data, Perturbed).run(back, key[1], fresh=True)[1], ref)[0]
            fresh[i, key] = ref, slack
        ref, slack = fresh[i, key]
        d, sc = dist(val, ref)
        require(d <= 1e-9 * sc + slack, lambda: f"operation {op} (argument {arg}) on problem {i} gives a result that differs by {d:.3e} "
                f"(size {sc:.3e}) from that of a fresh object")
        checked += 1
    return Info(checked >= 2 and len(ops_done) >= 3, [f"problems:{len(runners)}", *sorted({o for _, o in ops_done})])


@st.composite
def histories(draw):
    n = draw(st.sampled_from([1, 1, 2]))
    probs = []
    for _ in range(n):
        c = draw(stx.cfgs(kinds=["interval", "interval", "triangle", "quadrilateral"], maxN=6, kmax=2, budget=160,
                          jumps=draw(st.sampled_from([False, False, True]))))
        c["q"], c["qs"] = min(c["q"], 2), min(c["qs"], 1)
        c["g"] = {k: min(1.0, max(v, 1e-2)) for k, v in c["g"].items()}
        c["sol"] = draw(poly.coefs(maxterms=2))
        c["vseed"] = draw(st.integers(0, 99))
        probs.append(c)
    # expensive operations (error measurement) appear less often
    pool = [o for o in OPS for _ in range(1 if o in ("errors", "paraview", "plot", "plot-error", "march-improved", "bfi", "bfi-pre", "lfi") else 2)]
    if draw(st.booleans()):  # few kinds of requests, in every order
        pool = draw(st.lists(st.sampled_from(pool), min_size=2, max_size=4))
    ops = draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from(pool), st.integers(0, 5)), min_size=3, max_size=12))
    if draw(st.integers(0, 2)) == 0:  # the right-hand side is requested, then the functions holding the initial data change
        ops = [(i, o, 1) for i in range(n) for o in ("rhs", "initial")] + ops
    return {"problems": probs, "ops": ops}


def triples(ops):
    """A sequence that contains every sequence of three of the operations (from a de Bruijn sequence)."""
    k, a, out = len(ops), [0] * (3 * len(ops)), []

    def db(t, p):
        if t > 3:
            if 3 % p == 0:
                out.extend(a[1:p + 1])
            return
        a[t] = a[t - p]
        db(t + 1, p)
        for j in range(a[t - p] + 1, k):
            a[t] = j
            db(t + 1, t)

    db(1, 1)
    return [[0, *ops[i]] for i in out + out[:2]]


def fixed_histories():
    """Every operation between two requests of a result that must not change."""
    base = {"mesh": {"kind": "interval", "n": [3], "lo": 0.0, "len": [1.0], "jitter": 0.15, "seed": 3}, "q": 1, "qs": 1, "k": 1, "ks": 1,
            "N": 2, "T": 0.7, "g": {"data": 1.0, "dual": 0.3, "primal": 0.3, "primal-jump": 1.0}, "ind": {"seed": 1, "p": 0.5},
            "fitted": True, "jumps": False, "wp": True, "dof_seed": 3, "vseed": 5, "sol": [[1, [1, 0, 0], 0.5], [2, [2, 0, 0], 3.0]]}
    out = []
    for c in (base, {**base, "wp": False, "q": 2, "qs": 0}, {**base, "jumps": True, "qs": 0}):
        for first in ("rhs", "matrix", "matrix-pre", "slab", "first-slab"):
            ops = [[0, first, 0], [0, "initial", 1]]
            for o in OPS:
                if o in ("initial", "setup-rhs"):
                    continue
                ops += [[0, o, 1], [0, first, 0]]
            out.append({"problems": [c], "ops": ops})
    for c in ({**base, "qs": 0}, {**base, "wp": False}):
        for group in ([("matrix", 0), ("matrix-pre", 0), ("bfi", 0), ("bfi-pre", 0)],
                      [("slab", 0), ("slab-bfi", 0), ("first-slab", 0), ("first-slab", 1)],
                      [("first-slab", 1), ("setup-slab", 0), ("setup-slab-nojump", 0), ("slab", 0), ("apply", 1)],
                      [("rhs", 0), ("lfi", 0), ("setup-rhs", 0), ("initial", 1), ("initial", 2)],
                      [("coarse", 0), ("coarse", 1), ("transfer", 0), ("coarse-op", 1)]):
            ops = triples(group)
            # from several starting points: what has been set up first matters
            out += [{"problems": [c], "ops": ops[i:i + 20]} for i in range(0, len(ops), 18)]
    return out


PROP = Prop("S09", [
    Sub("call-histories", histories, check, "at least three different operations and two compared results",
        quick=256, thorough=6000, shards_quick=8, shards_thorough=8,
        always=fixed_histories()),
], assumptions=["stand-in for DOLFINx (lib/standin)", "the right-hand side refers to the initial data present when it is first "
                "requested or explicitly set up again"])
