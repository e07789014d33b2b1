"""Space-time configurations: generators, construction of the real object, reference objects."""
from __future__ import annotations

import itertools
import os
import pickle
import random
from pathlib import Path

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from vh import ref
from vh.core import HarnessError, require

# ---------------------------------------------------------------- meshes
KINDS = {"interval": 1, "triangle": 2, "quadrilateral": 2, "tetrahedron": 3, "hexahedron": 3}


@st.composite
def meshes(draw, kinds=None, maxcells=None):
    kind = draw(st.sampled_from(kinds or ["interval", "interval", "interval", "triangle", "triangle", "quadrilateral",
                                          "tetrahedron", "hexahedron"]))
    d = KINDS[kind]
    hi = {"interval": draw(st.sampled_from([5, 5, 5, 16])), "triangle": 2, "quadrilateral": 3, "tetrahedron": 1, "hexahedron": 2}[kind]
    n = [draw(st.integers(1, hi)) for _ in range(d)]
    if kind in ("triangle", "quadrilateral") and draw(st.integers(0, 7)) == 7:
        n = [draw(st.integers(3, 5)), draw(st.integers(1, 5))]
    if kind == "hexahedron":
        n = n[:2] + [1]
    if kind == "tetrahedron" and draw(st.booleans()):
        n = [2, 1, 1]
    return {"kind": kind, "n": n, "lo": draw(st.sampled_from([0.0, 0.0, -1.5, 0.25])),
            "len": [draw(st.sampled_from([1.0, 1.0, 0.5, 3.0])) for _ in range(d)],
            "jitter": draw(st.sampled_from([0.0, 0.15, 0.3])), "seed": draw(st.integers(0, 9999))}


def _axes(c, rng):
    out = []
    for n, ln in zip(c["n"], c["len"]):
        t = np.linspace(0.0, 1.0, n + 1)
        if n > 1 and c["jitter"]:
            t[1:-1] += c["jitter"] * (rng.random(n - 1) * 2 - 1) / n
        out.append(c["lo"] + ln * t)
    return out


def build_mesh(c):
    from dolfinx.mesh import Mesh
    from mpi4py import MPI

    rng = np.random.default_rng(c["seed"])
    kind, d = c["kind"], KINDS[c["kind"]]
    axes = _axes(c, rng)
    g = np.meshgrid(*axes, indexing="ij")
    x = np.stack([a.ravel() for a in g], axis=1)
    num = np.arange(len(x)).reshape([n + 1 for n in c["n"]])
    boxes = []
    for idx in itertools.product(*[range(n) for n in c["n"]]):
        boxes.append([int(num[tuple(i + ((v >> b) & 1) for b, i in enumerate(idx))]) for v in range(2**d)])
    boxes = np.array(boxes)
    if kind == "interval":
        cells = boxes
    elif kind in ("quadrilateral", "hexahedron"):
        cells = boxes
    elif kind == "triangle":
        cells = []
        for a, b, cc, dd in boxes:
            if rng.random() < 0.5 or not c["jitter"]:
                cells += [[a, b, dd], [a, cc, dd]]
            else:
                cells += [[a, b, cc], [b, cc, dd]]
        cells = np.array(cells)
    else:
        cells = []
        for v in boxes:
            for perm in itertools.permutations(range(3)):
                i, path = 0, [v[0]]
                for b in perm:
                    i |= 1 << b
                    path.append(v[i])
                cells.append(path)
        cells = np.array(cells)
    if kind in ("triangle", "tetrahedron") and c["jitter"]:
        # move interior points of simplicial meshes off the grid lines
        lo, hi = x.min(0), x.max(0)
        inner = np.all((x > lo + 1e-9) & (x < hi - 1e-9), axis=1)
        hmin = min(np.diff(a).min() for a in axes)
        x[inner] += c["jitter"] * 0.5 * hmin * (rng.random((int(inner.sum()), d)) * 2 - 1)
    if kind in ("interval", "triangle", "tetrahedron"):  # any vertex order within a cell is legal
        cells = np.array([rng.permutation(r) for r in cells])
    order = rng.permutation(len(cells))
    vperm = rng.permutation(len(x))
    xx = np.empty_like(x)
    xx[vperm] = x
    return Mesh(MPI.COMM_SELF, kind, vperm[cells[order]], xx)


# ---------------------------------------------------------------- configurations
ORDERS = [(q, s) for q in range(4) for s in range(4)]


@st.composite
def cfgs(draw, kinds=None, fitted=None, jumps=None, well_posed=None, maxN=32, minN=1, kmax=3, budget=1500, qmin=0):
    # Hypothesis repeats values a lot; half of the configurations are drawn uniformly to cover the combinations
    number = draw(st.integers(0, 2**32 - 1))
    uniform = random.Random(number) if number % 2 else None
    m = draw(meshes(kinds=kinds))
    d = KINDS[m["kind"]]

    def pick(vals, ok=lambda v: True):  # noqa: ARG005
        vals = [v for v in vals if ok(v)]
        return uniform.choice(vals) if uniform else draw(st.sampled_from(vals))

    k = pick([2, 1, 3, 1, 2], lambda v: v <= {1: kmax, 2: min(kmax, 3), 3: min(kmax, 2)}[d])
    ks = pick([1, 2, 3], lambda v: v <= min(k + 1, {1: 3, 2: 3, 3: 2}[d]))
    q, qs = pick([1, 2, 3, 0, 1, 2], lambda v: v >= qmin), pick([1, 0, 2, 3, 1, 0], lambda v: True)
    N = pick([2, 3, 1, 4, 3, 2, 4, 3, 2, 5, 6, 8, 10, 7, 3, 2, 16, 32], lambda v: minN <= v <= maxN)
    g = {i: pick([1.0, 1e-4, 0.3, 20.0]) for i in ("data", "dual", "primal", "primal-jump")}
    small = pick([None] * 6 + ["data", "dual", "primal", "primal-jump"])
    if small:  # other parameters must be positive (UFL refuses 0.0 * ds and empty forms)
        g[small] = 0.0 if small == "data" else 1e-7
    c = {
        "mesh": m, "q": q, "qs": qs, "k": k, "ks": ks, "N": N, "T": pick([1.0, 0.5, 2.0, 0.7, 0.1, 3.0, 0.02, 10.0]),
        "g": g, "ind": {"seed": draw(st.integers(0, 99)), "p": draw(st.sampled_from([0.0, 0.5, 0.5, 0.5, 1.0]))},
        "fitted": pick([False, True]) if fitted is None else fitted,
        "jumps": pick([False, True]) if jumps is None else jumps,
        "wp": pick([False, True]) if well_posed is None else well_posed,
        "dof_seed": draw(st.integers(0, 50)),
    }
    return shrink_cfg(c, budget)


HIGH = ((4, 4, 1.0), (5, 3, 1.0), (2, 1, 1e4), (1, 1, 1e6))


def grid(seed, extra=None, jumps=None, qmin=0, kmax=3, budget=700, minN=1, kinds=None, many=((70, True), (130, False)), high=None):
    """One configuration for every pair of orders in time, with various orders in space, meshes and flags; and small ones with many slabs."""
    out = []
    for i, (q, qs) in enumerate((q, qs) for q in range(qmin, 4) for qs in range(4)):
        r = random.Random(1000 * seed + i)
        ks = kinds or ["interval", "interval", "triangle", "quadrilateral"]
        kind = ks[(i + seed) % len(ks)]
        d = KINDS[kind]
        k = r.randint(1, kmax if d == 1 else min(kmax, 2))
        c = {"mesh": {"kind": kind, "n": [r.randint(2, 4) if d == 1 else 2 for _ in range(d)], "lo": 0.0, "len": [r.choice([1.0, 0.5]) for _ in range(d)],
                      "jitter": r.choice([0.0, 0.2]), "seed": r.randrange(999)},
             "q": q, "qs": qs, "k": k, "ks": r.randint(1, min(k + 1, 3)), "N": max(minN, r.choice([2, 3, 3]) if q + qs < 4 else 2),
             "T": r.choice([1.0, 0.7, 2.0]), "g": {n: r.choice([1.0, 0.3, 2.0]) for n in ("data", "dual", "primal", "primal-jump")},
             "ind": {"seed": r.randrange(99), "p": 0.5}, "fitted": r.random() < 0.5,
             "jumps": r.random() < 0.5 if jumps is None else jumps, "wp": r.random() < 0.5, "dof_seed": r.randrange(50)}
        while ndofs(c) > budget and (max(c["mesh"]["n"]) > 1 or c["k"] > 1):
            if max(c["mesh"]["n"]) > 1:
                c["mesh"]["n"][int(np.argmax(c["mesh"]["n"]))] -= 1
            else:
                c["k"], c["ks"] = c["k"] - 1, min(c["ks"], c["k"])
        if extra:
            c.update(extra(r))
        out.append(c)
    for N, wp in many:
        r = random.Random(1000 * seed + N)
        c = {"mesh": {"kind": "interval", "n": [1], "lo": 0.0, "len": [1.0], "jitter": 0.0, "seed": 1}, "q": qmin, "qs": 0, "k": 1, "ks": 1,
             "N": N if not qmin else N // 2 + 5, "T": 2.0, "g": {n: 1.0 for n in ("data", "dual", "primal", "primal-jump")}, "ind": {"seed": 3, "p": 1.0},
             "fitted": wp, "jumps": wp if jumps is None else jumps, "wp": wp, "dof_seed": r.randrange(50)}
        if extra:
            c.update(extra(r))
        out.append(c)
    for k, ks, data in HIGH if high is None else high:  # high orders in space, the shipped (large) data weight
        r = random.Random(1000 * seed + k)
        c = {"mesh": {"kind": "interval", "n": [2 if k > 3 else 3], "lo": 0.0, "len": [1.0], "jitter": 0.2, "seed": 1}, "q": 1, "qs": 1, "k": k, "ks": ks,
             "N": 2, "T": 1.0, "g": {"data": data, "dual": 1.0, "primal": 1e-3, "primal-jump": 1.0}, "ind": {"seed": 3, "p": 0.5},
             "fitted": k % 2 == 1, "jumps": False if jumps is None else jumps, "wp": k % 2 == 0, "dof_seed": r.randrange(50)}
        if extra:
            c.update(extra(r))
        out.append(c)
    return out


def nspace(m, k):
    n = 1
    for a in m["n"]:
        n *= a * k + 1
    return n


def ndofs(c):
    return 2 * c["N"] * ((c["q"] + 1) * nspace(c["mesh"], c["k"]) + (c["qs"] + 1) * nspace(c["mesh"], c["ks"]))


def shrink_cfg(c, budget):
    """Deterministically reduce sizes until the case is small enough to be checked quickly."""
    many = c["N"] > 4  # many slabs: keep them, at the expense of the rest
    while True:
        cost = c["N"] * (c["q"] + c["qs"] + 2) ** 2
        if ndofs(c) <= budget and cost <= 160:
            return c
        if c["N"] > 2 and not many:
            c["N"] -= 1
        elif max(c["mesh"]["n"]) > 2:
            i = int(np.argmax(c["mesh"]["n"]))
            c["mesh"]["n"][i] -= 1
        elif c["k"] > 1 and ndofs(c) > budget:
            c["k"] -= 1
            c["ks"] = min(c["ks"], c["k"] + 1)
        elif max(c["mesh"]["n"]) > 1 and ndofs(c) > budget:
            i = int(np.argmax(c["mesh"]["n"]))
            c["mesh"]["n"][i] -= 1
        elif c["q"] + c["qs"] > (1 if many else 3):
            if c["q"] >= c["qs"] and c["q"] > 1:
                c["q"] -= 1
            else:
                c["qs"] -= 1
        elif many and c["ks"] > 1 and ndofs(c) > budget:
            c["ks"] -= 1
        elif many and c["N"] > 2:
            c["N"] -= 1
        else:
            return c


# ---------------------------------------------------------------- data domain
def indicator(c, mesh):
    """(0/1 value per cell, point -> value) of the data domain; piecewise constant on the cells."""
    rng = np.random.default_rng([c["ind"]["seed"], 3])
    nc = len(mesh._cells)
    p = c["ind"]["p"]
    val = np.full(nc, float(p)) if p in (0.0, 1.0) else (rng.random(nc) < p).astype(float)
    if p == 0.5 and nc > 1 and val.min() == val.max():
        val[0] = 1.0 - val[0]

    def fn(x):
        pts = np.asarray(x)[: mesh._gdim].T
        cells = mesh._locate_cell(pts)
        return val[cells]

    return val, fn


_MEMO = {}


def _shared(real, q, qs):
    """The (slow, symbolic) element matrices, computed once per run and shared by its workers."""
    d = os.environ.get("VERIF_SHARED")
    f = Path(d) / f"elmat-{q}-{qs}.pickle" if d else None
    if f and f.is_file():
        return pickle.loads(f.read_bytes())
    val = {a: np.array(b, dtype=float) for a, b in real(q, qs).items()}
    if f:
        tmp = f.with_suffix(f".{os.getpid()}")
        tmp.write_bytes(pickle.dumps(val))
        tmp.rename(f)
    return val


def _memo_elmat():
    import dxss.precomp_time_int as pti
    import dxss.space_time as stm

    real = getattr(pti, "get_elmat_time", None)
    if real is None or getattr(real, "_verif_memo", False):
        return

    def memo(q, qstar):
        if (q, qstar) not in _MEMO:
            _MEMO[q, qstar] = _shared(real, q, qstar)
        return {a: np.array(b, copy=True) for a, b in _MEMO[q, qstar].items()}

    memo._verif_memo = True
    pti.get_elmat_time = memo
    if getattr(stm, "get_elmat_time", None) is real:
        stm.get_elmat_time = memo


def zero_solution():
    from dxss.space_time import ValueAndDerivative

    return ValueAndDerivative(lambda t, x: 0.0 * x[0] + t * 0.0, lambda t, x: 0.0 * x[0] + t * 0.0)


class Built:
    pass


def build(c, solution=None, setup=True, mesh=None, omega=None, parameters=None):
    """The real SpaceTime object for a case, plus the matching reference objects."""
    from dolfinx import _engine as E
    from dolfinx import fem

    from dxss import space_time as stm

    _memo_elmat()
    E.config.dof_seed = c["dof_seed"]
    B = Built()
    B.c = c
    B.mesh = mesh or build_mesh(c["mesh"])
    B.val, fn = indicator(c, B.mesh)
    if omega is None:
        if c["fitted"]:
            omega = stm.DataDomain(indicator_function=fn, fitted=True)
        else:
            f = fem.Function(fem.FunctionSpace(B.mesh, ("DG", 0)))
            f.interpolate(fn)
            omega = stm.DataDomain(indicator_function=f, fitted=False)
    B.omega = omega
    B.st = stm.SpaceTime(
        stm.OrderTime(c["q"], c["qs"]), stm.OrderSpace(c["k"], c["ks"]), N=c["N"], T=c["T"], t=0.0, msh=B.mesh,
        stabilisation_terms=dict(c["g"]), omega=omega, solution=solution or zero_solution(),
        parameters=parameters or stm.ProblemParameters(jumps_in_fw_problem=c["jumps"], well_posed=c["wp"]),
    )
    if setup:
        B.st.setup_spacetime_finite_elements()
    B.S = ref.Space(B.mesh)
    B.L = ref.Layout(B.S, c["q"], c["qs"], c["k"], c["ks"], c["N"])
    B.L1 = ref.Layout(B.S, c["q"], c["qs"], c["k"], c["ks"], 1)
    return B


def params(c, val):
    return {"dt": c["T"] / c["N"], "data": c["g"]["data"], "dual": c["g"]["dual"], "primal": c["g"]["primal"],
            "pj": c["g"]["primal-jump"], "lam": 5.0 * c["k"] ** 2, "omega": val, "well_posed": c["wp"], "jumps": c["jumps"]}


def form(B):
    if not hasattr(B, "_form"):
        B._form = ref.Form(B.S, B.L, params(B.c, B.val)).build()
    return B._form


def slabform(B):
    if not hasattr(B, "_slabform"):
        B._slabform = ref.Form(B.S, B.L1, params(B.c, B.val)).build()
    return B._slabform


def perm(B):
    if not hasattr(B, "_perm"):
        B._perm = B.L.permutation(B.st.fes)
        if sorted(B._perm) != list(range(B.L.n)):
            raise HarnessError("unexpected layout of the space-time space")
    return B._perm


def perm1(B):
    if not hasattr(B, "_perm1"):
        B._perm1 = B.L1.permutation(B.st.fes_p)
    return B._perm1


def csr(A):
    require(A is not None, "a requested matrix is missing (None)")
    ai, aj, av = A.getValuesCSR()
    return sp.csr_matrix((av, aj, ai), shape=A.getSize())


def to_ref(B, A):
    """Matrix of the package in the reference numbering."""
    p = perm(B) if A.shape[0] == B.L.n else perm1(B)
    return A[p][:, p]


def vec(n_or_array):
    from petsc4py import PETSc

    a = np.zeros(n_or_array) if np.isscalar(n_or_array) else np.asarray(n_or_array, dtype=float)
    v = PETSc.Vec().createSeq(len(a), comm=PETSc.COMM_SELF)
    v.array[:] = a
    return v
