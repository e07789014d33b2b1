"""Numerical core of the DOLFINx stand-in used by the /verif checks.

A small, serial, pure numpy finite element engine: meshes of affine cells, Lagrange and
discontinuous Lagrange spaces of any (small) degree, arbitrarily nested blocked/mixed
elements, and a numerical interpreter of UFL forms.  It exists because DOLFINx itself is
not installable in the sandbox; it follows the DOLFINx 0.6 API and documented semantics, and it is
deliberately *adversarial* where DOLFINx promises nothing: unknowns of blocked/mixed
spaces are numbered in a (seeded) arbitrary order.
"""
from __future__ import annotations

import itertools
from functools import lru_cache
from math import factorial

import numpy as np
from scipy.special import roots_jacobi


class Config:
    """Knobs a harness may turn; none is visible through the public API."""

    dof_seed: int | None = 0  # None: natural component-major numbering
    version = "0.6.0"
    xdmf_log: list = []
    forms_compiled = 0


config = Config()


class StandinUnsupported(NotImplementedError):
    """The stand-in does not implement this DOLFINx/UFL feature (a harness limit)."""


# ------------------------------------------------------------------ reference cells
CELLS = {
    "interval": dict(tdim=1, simplex=True),
    "triangle": dict(tdim=2, simplex=True),
    "tetrahedron": dict(tdim=3, simplex=True),
    "quadrilateral": dict(tdim=2, simplex=False),
    "hexahedron": dict(tdim=3, simplex=False),
}


def ref_vertices(cell):
    d = CELLS[cell]["tdim"]
    if CELLS[cell]["simplex"]:
        return np.vstack([np.zeros(d), np.eye(d)])
    # tensor-product ordering: x fastest (as in basix)
    return np.array([[(i >> b) & 1 for b in range(d)] for i in range(2**d)], dtype=float)


def facet_vertices(cell):
    """Local vertex indices of every facet."""
    if cell == "interval":
        return [(0,), (1,)]
    if cell == "triangle":
        return [(1, 2), (0, 2), (0, 1)]
    if cell == "tetrahedron":
        return [(1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)]
    v = ref_vertices(cell)
    out = []
    for ax in range(v.shape[1]):
        for side in (0, 1):
            out.append(tuple(int(i) for i in np.where(v[:, ax] == side)[0]))
    return out


@lru_cache(None)
def gauss01(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return 0.5 * (x + 1), 0.5 * w


@lru_cache(None)
def quadrature(cell, degree):
    """Points (nq, tdim) and weights exact for total degree `degree` (per direction on boxes)."""
    n = max(1, degree // 2 + 1)
    if cell == "point":
        return np.zeros((1, 0)), np.ones(1)
    d = CELLS[cell]["tdim"]
    if d == 1 or not CELLS[cell]["simplex"]:
        x, w = gauss01(n)
        pts = np.array([p[::-1] for p in itertools.product(x, repeat=d)])
        wts = np.array([np.prod(p) for p in itertools.product(w, repeat=d)])
        return pts, wts
    # collapsed (Duffy) rule with Gauss-Jacobi weights
    rules = []
    for a in range(d):
        xa, wa = roots_jacobi(n, d - 1 - a, 0)
        rules.append((0.5 * (xa + 1), wa / 2 ** (d - a)))
    pts, wts = [], []
    for idx in itertools.product(range(n), repeat=d):
        rem, p, w = 1.0, [], 1.0
        for a in range(d):
            x, wa = rules[a][0][idx[a]], rules[a][1][idx[a]]
            p.append(rem * x)
            rem *= 1 - x
            w *= wa
        pts.append(p)
        wts.append(w)
    return np.array(pts), np.array(wts)


class RefElement:
    """Lagrange element of given degree on a reference cell (equispaced nodes)."""

    def __init__(self, cell, degree, continuous):
        self.cell, self.degree, self.continuous = cell, degree, continuous
        d = self.tdim = CELLS[cell]["tdim"]
        self.simplex = CELLS[cell]["simplex"]
        k = degree
        if self.simplex:
            self.exps = [e for e in itertools.product(range(k + 1), repeat=d) if sum(e) <= k]
        else:
            self.exps = list(itertools.product(range(k + 1), repeat=d))
        if k == 0:
            v = ref_vertices(cell)
            self.nodes = v.mean(axis=0, keepdims=True)
            self.node_ints = None
        else:
            self.node_ints = [e[::-1] for e in self.exps]
            self.nodes = np.array(self.node_ints, dtype=float).reshape(-1, d) / k
        vander = self._mono(self.nodes, (0,) * d)
        self.coef = np.linalg.inv(vander)  # columns: basis functions
        self.ndofs = len(self.exps)

    def _mono(self, pts, alpha):
        out = np.ones((len(pts), len(self.exps)))
        for j, e in enumerate(self.exps):
            col = np.ones(len(pts))
            for x, ee, a in zip(pts.T, e, alpha):
                if a > ee:
                    col = np.zeros(len(pts))
                    break
                col = col * (factorial(ee) / factorial(ee - a)) * x ** (ee - a)
            out[:, j] = col
        return out

    def tabulate(self, alpha, pts):
        """d^alpha of every basis function at reference points (npts, tdim)."""
        return self._mono(pts, alpha) @ self.coef


@lru_cache(None)
def ref_element(cell, degree, continuous=True):
    return RefElement(cell, degree, continuous)


# ------------------------------------------------------------------ scalar dof numbering
def scalar_dofs(mesh, degree, continuous):
    """Cell-to-dof map (nc, nd) of the scalar space; deterministic for a mesh."""
    key = (degree, bool(continuous))
    cache = mesh._dof_cache
    if key in cache:
        return cache[key]
    el = ref_element(mesh._cell, degree, continuous)
    nc = len(mesh._cells)
    if not continuous or degree == 0:
        dm = np.arange(nc * el.ndofs).reshape(nc, el.ndofs)
        n = nc * el.ndofs
    else:
        nv = mesh._cells.shape[1]
        rows = []
        base = int(degree) ** el.tdim + 1
        for ints in el.node_ints:
            if el.simplex:
                wts = [degree - sum(ints), *ints]
            else:
                wts = []
                for v in ref_vertices(mesh._cell).astype(int):
                    w = 1
                    for i, b in zip(ints, v):
                        w *= i if b else degree - i
                    wts.append(w)
            wts = np.array(wts, dtype=np.int64)
            code = np.where(wts > 0, mesh._cells.astype(np.int64) * base + wts, -1)
            rows.append(np.sort(code, axis=1))
        allrows = np.stack(rows, axis=1).reshape(nc * el.ndofs, nv)
        _, inv = np.unique(allrows, axis=0, return_inverse=True)
        dm = np.asarray(inv).reshape(nc, el.ndofs)
        n = int(dm.max()) + 1
    if config.dof_seed is not None:
        # one canonical but arbitrary numbering per (mesh, element)
        perm = np.random.default_rng([config.dof_seed, degree, int(continuous), n]).permutation(n)
        dm = perm[dm]
    # physical node positions
    x = np.empty((n, mesh._gdim))
    x[dm.ravel()] = mesh.push_forward(el.nodes).reshape(-1, mesh._gdim)
    cache[key] = (dm, n, x)
    return cache[key]


# ------------------------------------------------------------------ UFL interpreter
import ufl  # noqa: E402
from ufl import classes as uc  # noqa: E402

NONE = (None, None)


def _d_add(a, b):
    if not a:
        return b
    if not b:
        return a
    out = dict(a)
    for k, v in b.items():
        out[k] = out[k] + v if k in out else v
    return out


def _d_scale(a, s):
    return {k: v * s for k, v in a.items()}


def _d_mul(a, b):
    out = {}
    for (t1, r1), v1 in a.items():
        for (t2, r2), v2 in b.items():
            if (t1 is not None and t2 is not None) or (r1 is not None and r2 is not None):
                raise ValueError("form is not linear in its arguments")
            k = (t1 if t1 is not None else t2, r1 if r1 is not None else r2)
            v = v1 * v2
            out[k] = out[k] + v if k in out else v
    return out


def _coef_only(a, what):
    for k in a:
        if k != NONE:
            raise ValueError(f"{what} of an expression depending on form arguments")
    return a.get(NONE, 0.0)


def obj(shape):
    return np.empty(shape, dtype=object)


def oscalar(d):
    a = np.empty((), dtype=object)
    a[()] = d
    return a


def otensor(fn, shape):
    a = np.empty(shape, dtype=object)
    for idx in np.ndindex(*shape):
        a[idx] = fn(idx)
    return a


_MATH = {
    "sqrt": np.sqrt, "exp": np.exp, "ln": np.log, "cos": np.cos, "sin": np.sin, "tan": np.tan,
    "cosh": np.cosh, "sinh": np.sinh, "tanh": np.tanh, "acos": np.arccos, "asin": np.arcsin,
    "atan": np.arctan,
}


class Interp:
    """Evaluates UFL expressions at a batch of points.

    geo: object with x (n, nq, gdim) physical points, h (n,), normal or None, and
    eval_function(coefficient, side, comp, deriv) -> (n, nq).  For interior facets all of
    these are lists over sides.
    """

    def __init__(self, geo):
        self.geo = geo
        self.cache = {}

    # entry
    def ev(self, o, side=None, env=()):
        key = (id(o), side, env)
        hit = self.cache.get(key)
        if hit is not None:
            return hit[1]
        r = self._ev(o, side, env)
        if not isinstance(r, np.ndarray) or r.dtype != object:
            r = oscalar(r)
        self.cache[key] = (o, r)  # keep o alive so its id stays unique
        return r

    def sc(self, o, side, env):
        r = self.ev(o, side, env)
        if r.shape != ():
            raise StandinUnsupported(f"expected scalar: {o!r}")
        return r[()]

    def _env_get(self, env, idx):
        for c, v in env:
            if c == idx.count():
                return v
        raise StandinUnsupported("unbound UFL index")

    def _fixed(self, mi, env):
        out = []
        for i in mi:
            if isinstance(i, uc.FixedIndex):
                out.append(int(i))
            else:
                out.append(self._env_get(env, i))
        return tuple(out)

    def _env_for(self, o, env):
        """Restrict env to free indices of o so caching works."""
        free = set(o.ufl_free_indices)
        return tuple((c, v) for c, v in env if c in free)

    def _ev(self, o, side, env):
        g = self.geo
        if isinstance(o, uc.Zero):
            return otensor(lambda _i: {}, o.ufl_shape)
        if isinstance(o, uc.ScalarValue):
            return {NONE: float(o)}
        if isinstance(o, uc.Identity):
            return otensor(lambda i: {NONE: 1.0} if i[0] == i[1] else {}, o.ufl_shape)
        if isinstance(o, uc.Argument):
            s = 0 if side is None else side
            n = o.number()
            sh = o.ufl_shape

            def arg(i):
                c = int(np.ravel_multi_index(i, sh)) if sh else 0
                f = (c, (), s)
                return {(f, None) if n == 0 else (None, f): 1.0}

            return otensor(arg, sh)
        if isinstance(o, uc.Coefficient):
            sh = o.ufl_shape
            return otensor(
                lambda i: {NONE: g.eval_function(o, side, int(np.ravel_multi_index(i, sh)) if sh else 0, ())},
                sh,
            )
        if isinstance(o, ufl.constant.Constant):
            val = np.asarray(o.value, dtype=float)
            return otensor(lambda i: {NONE: float(val[i])}, o.ufl_shape)
        if isinstance(o, uc.SpatialCoordinate):
            x = g.x
            return otensor(lambda i: {NONE: x[:, :, i[0]]}, o.ufl_shape)
        if isinstance(o, uc.FacetNormal):
            nrm = g.normal(side)
            return otensor(lambda i: {NONE: nrm[:, None, i[0]]}, o.ufl_shape)
        if isinstance(o, uc.CellDiameter):
            return {NONE: g.cell_h(side)[:, None]}
        if isinstance(o, (uc.Circumradius, uc.MinCellEdgeLength, uc.MaxCellEdgeLength)):
            return {NONE: g.cell_measure(type(o).__name__, side)[:, None]}
        if isinstance(o, uc.CellVolume):
            return {NONE: g.cell_volume(side)[:, None]}
        if isinstance(o, uc.FacetArea):
            return {NONE: g.facet_area()[:, None]}
        if isinstance(o, (uc.PositiveRestricted, uc.NegativeRestricted)):
            if side is not None:
                raise ValueError("nested restrictions")
            s = 0 if isinstance(o, uc.PositiveRestricted) else 1
            if g.nsides != 2:
                raise ValueError("restriction outside an interior facet integral")
            return self.ev(o.ufl_operands[0], s, env)
        if isinstance(o, uc.Sum):
            a, b = (self.ev(p, side, self._env_for(p, env)) for p in o.ufl_operands)
            return otensor(lambda i: _d_add(a[i], b[i]), o.ufl_shape)
        if isinstance(o, uc.Product):
            a, b = (self.sc(p, side, self._env_for(p, env)) for p in o.ufl_operands)
            return _d_mul(a, b)
        if isinstance(o, uc.Division):
            a, b = (self.sc(p, side, self._env_for(p, env)) for p in o.ufl_operands)
            den = _coef_only(b, "division")
            return {k: v / den for k, v in a.items()}
        if isinstance(o, uc.Power):
            a, b = (self.sc(p, side, self._env_for(p, env)) for p in o.ufl_operands)
            return {NONE: np.power(_coef_only(a, "power"), _coef_only(b, "power"))}
        if isinstance(o, uc.Abs):
            return {NONE: np.abs(_coef_only(self.sc(o.ufl_operands[0], side, env), "abs"))}
        if isinstance(o, uc.MathFunction):
            a = _coef_only(self.sc(o.ufl_operands[0], side, self._env_for(o.ufl_operands[0], env)), o._name)
            if o._name not in _MATH:
                raise StandinUnsupported(o._name)
            return {NONE: _MATH[o._name](a)}
        if isinstance(o, (uc.MinValue, uc.MaxValue)):
            a, b = (_coef_only(self.sc(p, side, self._env_for(p, env)), "min/max") for p in o.ufl_operands)
            return {NONE: (np.minimum if isinstance(o, uc.MinValue) else np.maximum)(a, b)}
        if isinstance(o, (uc.Conj, uc.Real, uc.Variable)):
            return self.ev(o.ufl_operands[0], side, env)
        if isinstance(o, uc.Conditional):
            c = self.cond(o.ufl_operands[0], side, env)
            a, b = (self.sc(p, side, self._env_for(p, env)) for p in o.ufl_operands[1:])
            m = np.asarray(c, dtype=float)
            return _d_add(_d_scale(a, m), _d_scale(b, 1.0 - m))
        if isinstance(o, uc.Inner):
            a, b = (self.ev(p, side, self._env_for(p, env)) for p in o.ufl_operands)
            out = {}
            for i in np.ndindex(*o.ufl_operands[0].ufl_shape):
                out = _d_add(out, _d_mul(a[i], b[i]))
            return out
        if isinstance(o, uc.Outer):
            a, b = (self.ev(p, side, self._env_for(p, env)) for p in o.ufl_operands)
            na = a.ndim
            return otensor(lambda i: _d_mul(a[i[:na]], b[i[na:]]), o.ufl_shape)
        if isinstance(o, uc.Dot):
            a, b = (self.ev(p, side, self._env_for(p, env)) for p in o.ufl_operands)
            n, na = a.shape[-1], a.ndim - 1

            def dot(i):
                out = {}
                for k in range(n):
                    out = _d_add(out, _d_mul(a[(*i[:na], k)], b[(k, *i[na:])]))
                return out

            return otensor(dot, o.ufl_shape)
        if isinstance(o, uc.Transposed):
            a = self.ev(o.ufl_operands[0], side, env)
            return otensor(lambda i: a[i[::-1]], o.ufl_shape)
        if isinstance(o, uc.Trace):
            a = self.ev(o.ufl_operands[0], side, env)
            out = {}
            for i in range(a.shape[0]):
                out = _d_add(out, a[i, i])
            return out
        if isinstance(o, uc.Indexed):
            a, mi = o.ufl_operands
            idx = self._fixed(mi, env)
            if isinstance(a, uc.ListTensor):  # avoid evaluating the whole list
                p = a.ufl_operands[idx[0]]
                r = self.ev(p, side, self._env_for(p, env))
                return r[idx[1:]]
            return self.ev(a, side, self._env_for(a, env))[idx]
        if isinstance(o, uc.IndexSum):
            s, mi = o.ufl_operands
            (i,) = mi
            out = {}
            for v in range(o.dimension()):
                e2 = self._env_for(s, (*env, (i.count(), v)))
                out = _d_add(out, self.sc(s, side, tuple(sorted(e2))))
            return out
        if isinstance(o, uc.ListTensor):
            parts = [self.ev(p, side, self._env_for(p, env)) for p in o.ufl_operands]
            return otensor(lambda i: parts[i[0]][i[1:]], o.ufl_shape)
        if isinstance(o, uc.ComponentTensor):
            e, mi = o.ufl_operands
            cnt = [i.count() for i in mi]

            def comp(i):
                full = tuple(sorted((*((c, v) for c, v in env if c not in cnt), *zip(cnt, i))))
                return self.sc(e, side, self._env_for(e, full))

            return otensor(comp, o.ufl_shape)
        if isinstance(o, (uc.Grad, uc.NablaGrad)):
            a = o.ufl_operands[0]
            gdim = g.gdim
            r = self.grad(a, side, env, o)
            if isinstance(o, uc.NablaGrad):
                return otensor(lambda i: r[(*i[1:], i[0])], o.ufl_shape)
            assert r.shape[-1] == gdim
            return r
        if isinstance(o, (uc.Div, uc.NablaDiv)):
            a = o.ufl_operands[0]
            r = self.grad(a, side, env, uc.Grad(a))
            nabla = isinstance(o, uc.NablaDiv)

            def dv(i):
                out = {}
                for k in range(g.gdim):
                    out = _d_add(out, r[(k, *i, k)] if nabla else r[(*i, k, k)])
                return out

            return otensor(dv, o.ufl_shape)
        raise StandinUnsupported(f"UFL node {type(o).__name__}")

    def cond(self, c, side, env):
        ops = c.ufl_operands
        if isinstance(c, uc.NotCondition):
            return np.logical_not(self.cond(ops[0], side, env))
        if isinstance(c, (uc.AndCondition, uc.OrCondition)):
            a, b = (self.cond(p, side, env) for p in ops)
            return np.logical_and(a, b) if isinstance(c, uc.AndCondition) else np.logical_or(a, b)
        a, b = (_coef_only(self.sc(p, side, self._env_for(p, env)), "condition") for p in ops)
        for cls, f in (
            (uc.LT, np.less), (uc.LE, np.less_equal), (uc.GT, np.greater),
            (uc.GE, np.greater_equal), (uc.EQ, np.equal), (uc.NE, np.not_equal),
        ):
            if isinstance(c, cls):
                return f(a, b)
        raise StandinUnsupported(type(c).__name__)

    def grad(self, a, side, env, gexpr):
        """Object array of shape a.shape + (gdim,)."""
        g = self.geo
        n, base = 1, a
        while isinstance(base, uc.Grad):
            n, base = n + 1, base.ufl_operands[0]
        if isinstance(base, uc.Coefficient):
            sh = base.ufl_shape

            def cf(i):
                comp = i[: len(sh)]
                c = int(np.ravel_multi_index(comp, sh)) if sh else 0
                return {NONE: g.eval_function(base, side, c, tuple(sorted(i[len(sh):])))}

            return otensor(cf, (*sh, *([g.gdim] * n)))
        if isinstance(base, uc.Constant if hasattr(uc, "Constant") else ufl.constant.Constant):
            return otensor(lambda _i: {}, (*base.ufl_shape, *([g.gdim] * n)))
        v = self.ev(a, side, env)
        ok = True
        for i in np.ndindex(*v.shape):
            for k, c in v[i].items():
                if isinstance(c, np.ndarray):
                    ok = False
        if ok:

            def df(i):
                out = {}
                for (t, r), c in v[i[:-1]].items():
                    if t is not None and r is not None:
                        raise StandinUnsupported("gradient of a bilinear expression")
                    if t is not None:
                        k = ((t[0], tuple(sorted((*t[1], i[-1]))), t[2]), None)
                    elif r is not None:
                        k = (None, (r[0], tuple(sorted((*r[1], i[-1]))), r[2]))
                    else:
                        continue
                    out[k] = c
                return out

            return otensor(df, (*v.shape, g.gdim))
        from ufl.algorithms import apply_algebra_lowering, apply_derivatives

        low = apply_derivatives.apply_derivatives(apply_algebra_lowering.apply_algebra_lowering(gexpr))
        if isinstance(low, uc.Grad):
            raise StandinUnsupported(f"gradient of {type(a).__name__}")
        return self.ev(low, side, env)
