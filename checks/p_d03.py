"""D03: direct-solver adapters and the sparse conversion."""
import warnings

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vh import drv, stx
from vh.core import Info, Prop, Sub, close, require

_MODS = {}


def module(dim, pardiso):
    if (dim, pardiso) not in _MODS:
        vals = {1: {"N": 1}, 2: {"REF_LVL": 0, "ORDER": 1}, 3: {"REF_LVL": 0}}[dim]
        _MODS[dim, pardiso] = drv.load(dim, vals, drv.fake_pypardiso() if pardiso else None)
    return _MODS[dim, pardiso]


def matrix(n, seed, kind):
    """Row-dominant (kind 1: after a permutation), signs of the dominant entries mixed."""
    rng = np.random.default_rng([seed, n])
    A = np.where(rng.random((n, n)) < min(1.0, 3.0 / n), rng.standard_normal((n, n)), 0.0)
    perm = rng.permutation(n) if kind == 1 else np.arange(n)
    A[np.arange(n), perm] = 0.0
    A[np.arange(n), perm] = (np.abs(A).sum(axis=1) + 1 + rng.random(n)) * rng.choice([-1, 1], n) * (30 if kind == 2 else 1)
    return sp.csr_matrix(A)


def check_adapter(c):
    m = module(c["dim"], True)
    adapters = []
    for n, seed, kind in c["mats"]:
        A = matrix(n, seed, kind)
        s = drv.FakePardiso()
        s.factorize(A)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            ad = m.PySolver(A, s)
        require(not w, f"{c['dim']}d: adapter warns although the direct solver library is available: {w[0].message if w else ''}")
        adapters.append((A, A.copy(), ad))
    for j, (which, seed, alias) in enumerate(c["solves"]):
        A, A0, ad = adapters[which % len(adapters)]
        n = A.shape[0]
        rng = np.random.default_rng([seed, 5])
        b = np.zeros(n) if seed == 0 else rng.standard_normal(n) * 10.0 ** rng.integers(-6, 6)
        bv, xv = stx.vec(b), stx.vec(rng.standard_normal(n) * 100)
        if alias:
            xv = bv
        ad.solve(bv, xv)
        x = np.array(xv.array)
        what = f"{c['dim']}d adapter {which % len(adapters)} of {len(adapters)}, solve {j}"
        if not alias:
            require(np.array_equal(bv.array, b), f"{what}: changed the right-hand side")
        r = A0 @ x - b
        sc = abs(A0).sum(axis=1).max() * np.abs(x).max() + np.abs(b).max()
        require(bool(np.all(np.isfinite(x))) and np.abs(r).max() <= 1e-11 * max(sc, 1e-300), f"{what}: residual {np.abs(r).max():.3e} (scale {sc:.3e})")
        require(abs(A - A0).max() == 0, f"{what}: changed the matrix")
    return Info(len(c["solves"]) >= 2 and len(c["mats"]) >= 1, [f"{c['dim']}d", f"adapters={len(c['mats'])}"])


def check_warning(c):
    """Warns exactly when the library is absent; the library may be looked up at import or at construction."""
    m = module(c["dim"], c["pardiso"])
    A = matrix(c["n"], 1, 0)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        for _ in range(c["times"]):
            m.PySolver(A, drv.FakePardiso())
    if c["pardiso"]:
        require(len(w) == 0, f"{c['dim']}d: warning although the library is available")
    else:
        require(len(w) == c["times"], f"{c['dim']}d: {len(w)} warnings for {c['times']} adapters without the library")
        require(all(issubclass(x.category, UserWarning) for x in w), f"{c['dim']}d: not a UserWarning")
    return Info(not c["pardiso"], [f"{c['dim']}d"])


def petsc_aij(c):
    from petsc4py import PETSc

    r, q = c["rows"], (c["rows"] if c["square"] else c["cols"])
    M = PETSc.Mat().createAIJ((r, q), nnz=q, comm=PETSc.COMM_SELF)
    M.setOption(PETSc.Mat.Option.NEW_NONZERO_ALLOCATION_ERR, False)
    D = np.zeros((r, q))
    for i, j, v in c["entries"]:
        i, j = i % r, j % q
        D[i, j] += v / 8.0
        M.setValue(i, j, v / 8.0, addv=True)
    M.assemble()
    return M, D


def check_conversion(c):
    from dxss.space_time import get_sparse_matrix

    M, D = petsc_aij(c)
    S = get_sparse_matrix(M)
    require(sp.issparse(S) or isinstance(S, sp.sparray), f"conversion gives {type(S).__name__}")
    require(tuple(S.shape) == D.shape, f"conversion of a {D.shape} matrix has shape {tuple(S.shape)}")
    close(S.toarray(), D, 1e-15, "converted matrix")
    require(S.format == "csr", f"conversion gives {S.format} format, the direct solver needs csr")
    # a copy: neither side follows changes of the other
    S.data[:] = -7.0
    i = M.getValuesCSR()
    back = sp.csr_matrix((i[2], i[1], i[0]), shape=D.shape).toarray()
    close(back, D, 1e-15, "PETSc matrix after changing the converted one")
    return Info(np.count_nonzero(D) >= 2, ["square" if D.shape[0] == D.shape[1] else "rectangular", "empty last column" if not D[:, -1].any() else "full"])


def check_lu(c):
    """get_lu_solver: solves for every right-hand side with the current matrix."""
    from mpi4py import MPI
    from petsc4py import PETSc

    m = module(c["dim"], False)

    class Msh:
        comm = MPI.COMM_SELF

    solvers = []
    for n, seed, kind in c["mats"]:
        A = matrix(n, seed, kind)
        if kind == 1:  # PETSc's LU does not pivot: keep the diagonal dominant
            A = matrix(n, seed, 0)
        P = PETSc.Mat().createAIJ((n, n), csr=(A.indptr, A.indices, A.data), comm=PETSc.COMM_SELF)
        P.assemble()
        solvers.append((A, m.get_lu_solver(Msh, P), P))
    for j, (which, seed, _alias) in enumerate(c["solves"]):
        A, s, _P = solvers[which % len(solvers)]
        n = A.shape[0]
        b = np.random.default_rng([seed, 6]).standard_normal(n)
        bv, xv = stx.vec(b), stx.vec(np.full(n, 3.0))
        s.solve(bv, xv)
        what = f"{c['dim']}d LU solver {which % len(solvers)}, solve {j}"
        require(np.array_equal(bv.array, b), f"{what}: changed the right-hand side")
        r = np.abs(A @ xv.array - b).max()
        require(r <= 1e-10 * (abs(A).sum(axis=1).max() * np.abs(xv.array).max() + 1), f"{what}: residual {r:.3e}")
    return Info(len(c["solves"]) >= 2, [f"{c['dim']}d"])


def adapter_cases():
    return st.fixed_dictionaries({
        "dim": st.integers(1, 3),
        "mats": st.lists(st.tuples(st.integers(1, 14), st.integers(0, 999), st.integers(0, 2)), min_size=1, max_size=3),
        "solves": st.lists(st.tuples(st.integers(0, 2), st.integers(0, 999), st.sampled_from([False, False, False, True])), min_size=1, max_size=6)})


def conv_cases():
    return st.fixed_dictionaries({
        "rows": st.integers(1, 9), "cols": st.integers(1, 9), "square": st.booleans(),
        "entries": st.lists(st.tuples(st.integers(0, 8), st.integers(0, 8), st.integers(-40, 40)), max_size=30)})


def warn_cases():
    return st.fixed_dictionaries({"dim": st.integers(1, 3), "pardiso": st.booleans(), "n": st.integers(1, 5), "times": st.integers(1, 3)})


PROP = Prop("D03", [
    Sub("adapter", adapter_cases, check_adapter, "at least two solves", quick=1504, thorough=18048, shards_quick=8, shards_thorough=8),
    Sub("warning", warn_cases, check_warning, "the library is absent", quick=200, thorough=2400, shards_quick=2),
    Sub("conversion", conv_cases, check_conversion, "at least two nonzero entries", quick=2000, thorough=40000, shards_quick=4, shards_thorough=8,
        always=[{"rows": 3, "cols": 5, "square": False, "entries": [[0, 0, 8], [1, 1, 4], [2, 2, -3]]},
                {"rows": 4, "cols": 2, "square": True, "entries": [[0, 0, 8], [1, 1, 4], [2, 2, -3], [3, 0, 1]]}]),
    Sub("lu_solver", adapter_cases, check_lu, "at least two solves", quick=1000, thorough=20000, shards_quick=4, shards_thorough=8),
], assumptions=["pypardiso is a substitute with the same phase-based interface (scipy SuperLU inside)"])
