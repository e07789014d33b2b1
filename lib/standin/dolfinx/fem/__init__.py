from __future__ import annotations

import numpy as np
import ufl
from ufl.finiteelement import FiniteElement, MixedElement, VectorElement

from dolfinx import _engine as E
from dolfinx import la
from dolfinx.mesh import Mesh

_CG = {"Lagrange", "CG", "P", "Q"}
_DG = {"Discontinuous Lagrange", "DG", "DP", "DQ", "DPC"}


def _flatten(el):
    if isinstance(el, FiniteElement):
        fam, deg = el.family(), el.degree()
        if fam in _CG:
            if deg < 1:
                raise RuntimeError("Lagrange element of degree < 1")
            return [(deg, True)]
        if fam in _DG:
            return [(deg, False)]
        raise E.StandinUnsupported(f"element family {fam}")
    subs = el.sub_elements()
    if isinstance(el, (MixedElement,)):  # includes VectorElement/TensorElement
        out = []
        for s in subs:
            out += _flatten(s)
        return out
    raise E.StandinUnsupported(f"element {el!r}")


class ElementMetaData(tuple):
    def __new__(cls, family, degree):
        return super().__new__(cls, (family, degree))


class _FiniteElement:
    def __init__(self, comps, cell):
        self._comps, self._cell = comps, cell

    def interpolation_points(self):
        d, c = self._comps[0]
        return E.ref_element(self._cell, d, c).nodes

    @property
    def space_dimension(self):
        return sum(E.ref_element(self._cell, d, c).ndofs for d, c in self._comps)

    @property
    def num_sub_elements(self):
        return len(self._comps) if len(self._comps) > 1 else 0


class _IM:
    def __init__(self, n):
        self.size_local = self.size_global = n
        self.num_ghosts = 0
        self.local_range = (0, n)


class _DofMap:
    def __init__(self, V):
        self._V = V
        n = V._ndofs
        self.index_map = _IM(n)
        self.index_map_bs = 1
        self.bs = 1

    def cell_dofs(self, c):
        return np.concatenate([m[c] for m in self._V._maps]).astype(np.int32)

    @property
    def list(self):
        return np.concatenate(self._V._maps, axis=1).astype(np.int32)


class FunctionSpace(ufl.FunctionSpace):
    def __init__(self, mesh, element, _root=None, _comps=None):
        if not isinstance(mesh, Mesh):
            raise TypeError("expected a dolfinx mesh")
        if isinstance(element, (tuple, list)):
            element = FiniteElement(element[0], mesh.ufl_cell(), int(element[1]))
        super().__init__(mesh.ufl_domain(), element)
        self._mesh = mesh
        flat = _flatten(element)
        self._flat = flat
        if _root is None:
            self._root = self
            scal = [E.scalar_dofs(mesh, d, c) for d, c in flat]
            sizes = [s[1] for s in scal]
            total = int(sum(sizes))
            perm = np.arange(total)
            if E.config.dof_seed is not None and len(flat) > 1:
                perm = np.random.default_rng([E.config.dof_seed, total, len(flat)]).permutation(total)
            off = np.concatenate([[0], np.cumsum(sizes)])
            # scalar dof i of component c  ->  root dof
            self._scalar_to_root = [perm[off[c] : off[c + 1]] for c in range(len(flat))]
            self._comp_ids = list(range(len(flat)))
            self._ndofs = total
            self._x_scal = [s[2] for s in scal]
            self._dm_scal = [s[0] for s in scal]
            if len(flat) == 1:
                self._scalar_to_root = [np.arange(total)]
        else:
            self._root = _root
            self._comp_ids = _comps
            self._ndofs = _root._ndofs
        r = self._root
        self._maps = [r._scalar_to_root[c][r._dm_scal[c]] for c in self._comp_ids]

    # identity semantics, as in DOLFINx
    def __eq__(self, other):
        return self is other or (
            isinstance(other, FunctionSpace)
            and self._root is other._root
            and self._comp_ids == other._comp_ids
            and super().__eq__(other)
        )

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return super().__hash__()

    @property
    def mesh(self):
        return self._mesh

    @property
    def num_sub_spaces(self):
        return self.ufl_element().num_sub_elements()

    @property
    def element(self):
        return _FiniteElement(self._flat, self._mesh._cell)

    @property
    def dofmap(self):
        return _DofMap(self)

    def component(self):
        return list(self._comp_ids)

    def sub(self, i):
        subs = self.ufl_element().sub_elements()
        if not 0 <= i < len(subs):
            raise RuntimeError(f"no sub space {i}")
        start = sum(len(_flatten(s)) for s in subs[:i])
        n = len(_flatten(subs[i]))
        return FunctionSpace(self._mesh, subs[i], self._root, self._comp_ids[start : start + n])

    def collapse(self):
        if self._root is self:
            raise RuntimeError("Function space has not been extracted from another space")
        V = FunctionSpace(self._mesh, self.ufl_element())
        m = np.empty(V._ndofs, dtype=np.int32)
        for j, c in enumerate(self._comp_ids):
            m[V._scalar_to_root[j]] = self._root._scalar_to_root[c]
        return V, m

    def clone(self):
        return FunctionSpace(self._mesh, self.ufl_element())

    def tabulate_dof_coordinates(self):
        if self._root is not self:
            raise RuntimeError("Cannot tabulate coordinates for a FunctionSpace that is a subspace.")
        x = np.zeros((self._ndofs, 3))
        for j in range(len(self._flat)):
            x[self._scalar_to_root[j], : self._mesh._gdim] = self._x_scal[j]
        return x

    # numpy helpers
    def _comp_dofs(self, j):
        """cell-to-root-dof map of local component j."""
        return self._maps[j]


def functionspace(mesh, element):
    return FunctionSpace(mesh, element)


def VectorFunctionSpace(mesh, element, dim=None):  # noqa: N802
    e = FiniteElement(element[0], mesh.ufl_cell(), element[1])
    return FunctionSpace(mesh, VectorElement(e, dim=dim or mesh._gdim))


class Constant(ufl.Constant):
    def __init__(self, domain, c):
        c = np.asarray(c, dtype=float)
        dom = domain.ufl_domain() if hasattr(domain, "ufl_domain") else domain
        super().__init__(dom, c.shape)
        self._value = c

    @property
    def value(self):
        return self._value

    @value.setter
    def value(self, v):
        np.copyto(self._value, np.asarray(v, dtype=float))


class Expression:
    def __init__(self, e, X, **_kw):
        self.ufl_expression = e
        self._X = np.asarray(X() if callable(X) else X, dtype=float)

    def X(self):  # noqa: N802
        return self._X

    def _values(self, mesh):
        """(nc, npts, *shape)"""
        e = ufl.as_ufl(self.ufl_expression)
        geo = CellGeo(mesh, self._X, np.ones(len(self._X)))
        r = E.Interp(geo).ev(e)
        out = np.empty((len(mesh._cells), len(self._X), *r.shape))
        for i in np.ndindex(*r.shape):
            out[(slice(None), slice(None), *i)] = E._coef_only(r[i], "Expression")
        return out

    def eval(self, mesh_or_cells, cells=None):
        mesh = mesh_or_cells if isinstance(mesh_or_cells, Mesh) else None
        if mesh is None:
            cells = mesh_or_cells
            from ufl.domain import extract_unique_domain

            mesh = extract_unique_domain(self.ufl_expression)._standin_mesh
        v = self._values(mesh)[np.asarray(cells, int)]
        return v.reshape(len(v), -1)


class Function(ufl.Coefficient):
    def __init__(self, V, x=None, name=None, dtype=None):
        super().__init__(V)
        self._V = V
        self._xv = x if x is not None else la.Vector(np.zeros(V._ndofs))
        if isinstance(x, la.Vector) and len(x.array) != V._ndofs:
            raise RuntimeError("vector size does not match the space")
        self.name = name or f"f_{self.count()}"
        self._pv = None

    @property
    def function_space(self):
        return self._V

    @property
    def x(self):
        return self._xv

    @property
    def dtype(self):
        return self._xv.array.dtype

    @property
    def vector(self):
        from petsc4py import PETSc

        if self._pv is None:
            self._pv = PETSc.Vec().createWithArray(self._xv.array, comm=self._V.mesh.comm)
        return self._pv

    def sub(self, i):
        return Function(self._V.sub(i), self._xv, name=f"{self.name}_{i}")

    def split(self):
        n = self._V.num_sub_spaces
        if n <= 0:
            raise RuntimeError("No subspaces to split into")
        return tuple(self.sub(i) for i in range(n))

    def collapse(self):
        V, m = self._V.collapse()
        u = Function(V)
        u.x.array[:] = self._xv.array[m]
        return u

    def copy(self):
        u = Function(self._V)
        u.x.array[:] = self._xv.array
        return u

    # evaluation
    def _eval_ref(self, cells, tab, comp):
        """tab: (n or 1, nq, nd) -> (n, nq)"""
        d = self._xv.array[self._V._comp_dofs(comp)[cells]]
        if tab.shape[0] == 1:
            return d @ tab[0].T
        return np.einsum("nqd,nd->nq", tab, d)

    def eval(self, x, cells, u=None):
        x = np.atleast_2d(np.asarray(x, float))
        cells = np.atleast_1d(np.asarray(cells, int))
        m = self._V.mesh
        n = len(self._V._flat)
        out = np.zeros((len(cells), n))
        ok = cells >= 0
        X = m.pull_back(cells[ok], x[ok][:, None, : m._gdim])
        for c, (deg, cont) in enumerate(self._V._flat):
            t = E.ref_element(m._cell, deg, cont).tabulate((0,) * m._tdim, X.reshape(-1, m._tdim))
            out[ok, c] = self._eval_ref(cells[ok], t.reshape(len(X), 1, -1), c)[:, 0]
        return out[0] if len(cells) == 1 and x.shape[0] == 1 else out

    def interpolate(self, u, cells=None, nmm_interpolation_data=None, **_kw):
        V, m = self._V, self._V.mesh
        sel = slice(None) if cells is None else np.asarray(cells, int)
        if isinstance(u, Function):
            if len(u._V._flat) != len(V._flat):
                raise RuntimeError("Cannot interpolate: different value sizes")
            vals = []
            for c, (deg, cont) in enumerate(V._flat):
                nodes = E.ref_element(m._cell, deg, cont).nodes
                if u._V.mesh is m:
                    d2, c2 = u._V._flat[c]
                    t = E.ref_element(m._cell, d2, c2).tabulate((0,) * m._tdim, nodes)
                    vals.append(u._eval_ref(np.arange(len(m._cells)), t[None], c))
                else:
                    pts = m.push_forward(nodes).reshape(-1, m._gdim)
                    upts, inv = np.unique(np.round(pts, 13), axis=0, return_inverse=True)
                    cc = u._V.mesh._locate_cell(upts)
                    # points outside the other mesh keep value 0 (DOLFINx 0.6 behaviour)
                    r = np.zeros(len(upts))
                    ok = cc >= 0
                    if ok.any():
                        p3 = np.zeros((int(ok.sum()), 3))
                        p3[:, : m._gdim] = upts[ok]
                        r[ok] = np.atleast_2d(u.eval(p3, cc[ok])).reshape(int(ok.sum()), -1)[:, c]
                    vals.append(r[np.asarray(inv).ravel()].reshape(len(m._cells), -1))
        elif isinstance(u, Expression):
            v = u._values(m)
            v = v.reshape(v.shape[0], v.shape[1], -1)
            if v.shape[2] != len(V._flat):
                raise RuntimeError("Function value size not equal to Expression value size")
            nodes = E.ref_element(m._cell, *V._flat[0]).nodes
            if u._X.shape != nodes.shape or not np.allclose(u._X, nodes):
                raise RuntimeError("Interpolation points do not match the element")
            vals = [v[:, :, c] for c in range(len(V._flat))]
        elif callable(u) and not isinstance(u, ufl.core.expr.Expr):
            vals = []
            for c, (deg, cont) in enumerate(V._flat):
                pts = m.push_forward(E.ref_element(m._cell, deg, cont).nodes)
                x3 = np.zeros((3, pts.shape[0] * pts.shape[1]))
                x3[: m._gdim] = pts.reshape(-1, m._gdim).T
                f = np.asarray(u(x3), dtype=float)
                if f.ndim == 1:
                    f = f[None, :]
                if f.shape != (len(V._flat), x3.shape[1]):
                    raise RuntimeError("Interpolation data has the wrong shape/size.")
                vals.append(f[c].reshape(pts.shape[:2]))
        else:
            raise TypeError(f"cannot interpolate {type(u).__name__}")
        for c in range(len(V._flat)):
            self._xv.array[V._comp_dofs(c)[sel]] = vals[c][sel]


# ------------------------------------------------------------------ geometry contexts
class CellGeo:
    nsides = 1

    def __init__(self, mesh, X, w):
        self.mesh, self.gdim = mesh, mesh._gdim
        self.X = np.asarray(X)
        n = len(mesh._cells)
        self.cells = np.arange(n)
        self.x = mesh.push_forward(self.X)
        self.w = mesh._detJ[:, None] * w[None, :]
        self._tabs = {}
        self._G = {}

    def cell_ids(self, _side):
        return self.cells

    def cell_h(self, _side):
        return self.mesh._h

    def cell_volume(self, _side):
        return self.mesh._vol

    def cell_measure(self, name, side):
        return self.mesh._measure(name)[self.cell_ids(side)]

    def facet_area(self):
        raise ValueError("facet area in a cell integral")

    def normal(self, _side):
        raise ValueError("facet normal in a cell integral")

    def tab(self, deg, cont, deriv, _side):
        key = (deg, cont, deriv)
        if key not in self._tabs:
            self._tabs[key] = _phys_tab(self.mesh, self.cells, self.X[None], deg, cont, deriv, shared=True)
        return self._tabs[key]

    def eval_function(self, f, side, comp, deriv):
        V = f.function_space
        if V.mesh is not self.mesh:
            raise ValueError("coefficient lives on a different mesh")
        return f._eval_ref(self.cell_ids(side), self.tab(*V._flat[comp], deriv, side), comp)


class FacetGeo(CellGeo):
    def __init__(self, mesh, facets, X, w):
        """facets: (n, 2) or (n, 4) arrays of (cell, local facet)[x2]."""
        self.mesh, self.gdim = mesh, mesh._gdim
        self.nsides = facets.shape[1] // 2
        self.cells_s = [facets[:, 2 * s] for s in range(self.nsides)]
        rv = E.ref_vertices(mesh._cell)
        fv = E.facet_vertices(mesh._cell)
        nf = len(facets)
        t = mesh._tdim
        Xc = np.zeros((nf, len(w), t))
        tang = np.zeros((nf, t - 1, mesh._gdim))
        for lf, vs in enumerate(fv):
            sel = facets[:, 1] == lf
            v = rv[list(vs)]
            dirs = np.array([v[i] - v[0] for i in range(1, t)]).reshape(t - 1, t)
            Xc[sel] = (v[0] + X @ dirs)[None]
            if t > 1:
                tang[sel] = np.einsum("ngt,at->nag", mesh._J[facets[sel, 0]], dirs)
        c0 = self.cells_s[0]
        self.x = mesh._v0[c0][:, None, :] + np.einsum("ngt,nqt->nqg", mesh._J[c0], Xc)
        self.Xs = [Xc] + [mesh.pull_back(self.cells_s[s], self.x) for s in range(1, self.nsides)]
        cen = mesh._x[mesh._cells].mean(axis=1)
        if t == 1:
            nrm = self.x[:, 0, :] - cen[c0]
            meas = np.ones(nf)
        elif t == 2:
            nrm = np.stack([tang[:, 0, 1], -tang[:, 0, 0]], axis=1)
            meas = np.linalg.norm(tang[:, 0], axis=1)
        else:
            nrm = np.cross(tang[:, 0], tang[:, 1])
            meas = np.linalg.norm(nrm, axis=1)
        nrm = nrm / np.linalg.norm(nrm, axis=1, keepdims=True) if nf else nrm
        sgn = np.sign(np.einsum("ng,ng->n", nrm, self.x[:, 0, :] - cen[c0])) if nf else np.zeros(0)
        self._n = nrm * sgn[:, None]
        self._meas = meas
        self.w = meas[:, None] * w[None, :]
        self._tabs = {}
        self._G = {}

    def cell_ids(self, side):
        return self.cells_s[0 if side is None else side]

    def _chk(self, side):
        if self.nsides == 2 and side is None:
            raise ValueError("expression must be restricted in an interior facet integral")

    def cell_h(self, side):
        self._chk(side)
        return self.mesh._h[self.cell_ids(side)]

    def cell_volume(self, side):
        self._chk(side)
        return self.mesh._vol[self.cell_ids(side)]

    def cell_measure(self, name, side):
        self._chk(side)
        return super().cell_measure(name, side)

    def facet_area(self):
        return self._meas * (0.5 if self.mesh._cell == "tetrahedron" else 1.0)

    def normal(self, side):
        self._chk(side)
        return -self._n if side == 1 else self._n

    def tab(self, deg, cont, deriv, side):
        s = 0 if side is None else side
        key = (deg, cont, deriv, s)
        if key not in self._tabs:
            self._tabs[key] = _phys_tab(self.mesh, self.cells_s[s], self.Xs[s], deg, cont, deriv, shared=False)
        return self._tabs[key]

    def eval_function(self, f, side, comp, deriv):
        self._chk(side)
        return super().eval_function(f, side, comp, deriv)


def _phys_tab(mesh, cells, X, deg, cont, deriv, shared):
    """Physical derivatives d^deriv phi: (n or 1, nq, nd). deriv: tuple of directions."""
    import itertools

    el = E.ref_element(mesh._cell, deg, cont)
    t = mesh._tdim
    nx, nq = X.shape[0], X.shape[1]

    def ref(dirs):
        alpha = [0] * t
        for d in dirs:
            alpha[d] += 1
        return el.tabulate(tuple(alpha), X.reshape(-1, t)).reshape(nx, nq, el.ndofs)

    if not deriv:
        return ref(())
    K = mesh._K[cells]
    out = 0.0
    for dirs in itertools.product(range(t), repeat=len(deriv)):
        c = np.ones(len(cells))
        for a, i in zip(dirs, deriv):
            c = c * K[:, a, i]
        out = out + c[:, None, None] * ref(dirs)
    return out


def _geometry(mesh, itype, degree):
    key = (itype, degree)
    if key in mesh._tab_cache:
        return mesh._tab_cache[key]
    cell = mesh._cell
    if itype == "cell":
        g = CellGeo(mesh, *E.quadrature(cell, degree))
    else:
        fc = {"interval": "point", "triangle": "interval", "quadrilateral": "interval",
              "tetrahedron": "triangle", "hexahedron": "quadrilateral"}[cell]
        X, w = E.quadrature(fc, degree)
        ext, inn = mesh._facets()
        g = FacetGeo(mesh, ext if itype == "exterior_facet" else inn, X, w)
    mesh._tab_cache[key] = g
    return g


# ------------------------------------------------------------------ forms
class Form:
    def __init__(self, ufl_form):
        E.config.forms_compiled += 1
        self.ufl_form = ufl_form
        self._args = sorted(ufl_form.arguments(), key=lambda a: a.number())
        self.rank = len(self._args)
        self.function_spaces = [a.ufl_function_space() for a in self._args]
        doms = ufl_form.ufl_domains()
        ms = {id(getattr(d, "_standin_mesh", None)): getattr(d, "_standin_mesh", None) for d in doms}
        if len(ms) != 1:
            raise RuntimeError("expecting a form on exactly one mesh")
        self.mesh = next(iter(ms.values()))
        deg = 0
        for a in self._args:
            deg += max(d for d, _ in a.ufl_function_space()._flat)
        cdeg = [max(d for d, _ in c.function_space._flat) for c in ufl_form.coefficients()]
        self._auto_degree = deg + (max(cdeg) * (2 if self.rank == 0 else 1) if cdeg else 0) + 2

    # arrays keyed by factor pairs, one per (type, degree)
    def _interpret(self):
        out = {}
        interps = {}
        for it in self.ufl_form.integrals():
            sid = it.subdomain_id()
            if sid not in ("everywhere", ("everywhere",), "otherwise", ("otherwise",)):
                raise E.StandinUnsupported("subdomain integrals")
            ty = it.integral_type()
            if ty not in ("cell", "exterior_facet", "interior_facet"):
                raise E.StandinUnsupported(ty)
            md = it.metadata() or {}
            degree = int(md.get("quadrature_degree", self._auto_degree))
            if degree < 0:
                degree = self._auto_degree
            geo = _geometry(self.mesh, ty, degree)
            ip = interps.setdefault((ty, degree), E.Interp(geo))
            r = ip.sc(it.integrand(), None, ())
            out[(ty, degree)] = E._d_add(out.get((ty, degree), {}), r)
        return out

    def assemble_scalar(self):
        tot = 0.0
        for key, d in self._interpret().items():
            geo = _geometry(self.mesh, *key)
            c = E._coef_only(d, "functional")
            tot += float(np.sum(np.broadcast_to(c, geo.w.shape) * geo.w))
        return tot

    def assemble_vector(self, b):
        (V,) = self.function_spaces
        for key, d in self._interpret().items():
            geo = _geometry(self.mesh, *key)
            for (t, _r), c in d.items():
                if t is None:
                    raise ValueError("integrand of a linear form without test function")
                comp, dv, s = t
                tab = geo.tab(*V._flat[comp], dv, s)
                cw = np.broadcast_to(c, geo.w.shape) * geo.w
                v = cw @ tab[0] if tab.shape[0] == 1 else np.einsum("nq,nqd->nd", cw, tab)
                np.add.at(b, V._comp_dofs(comp)[geo.cell_ids(s)].ravel(), v.ravel())
        return b

    def assemble_csr(self):
        import scipy.sparse as sp

        Vt, Vr = self.function_spaces
        rows, cols, vals = [], [], []
        for key, d in self._interpret().items():
            geo = _geometry(self.mesh, *key)
            blocks = {}
            for (t, r), c in d.items():
                if t is None or r is None:
                    raise ValueError("integrand of a bilinear form without test/trial function")
                ekt, ekr = (*Vt._flat[t[0]], t[1], t[2]), (*Vr._flat[r[0]], r[1], r[2])
                per_cell = not isinstance(c, np.ndarray) or c.ndim == 0 or c.shape[-1] == 1
                if per_cell:
                    gk = (ekt, ekr)
                    if gk not in geo._G:
                        geo._G[gk] = _elem(geo.w, geo.tab(*ekt), geo.tab(*ekr))
                    cc = c if not isinstance(c, np.ndarray) else np.asarray(c).reshape(-1, 1, 1)
                    blk = geo._G[gk] * cc
                else:
                    blk = _elem(np.broadcast_to(c, geo.w.shape) * geo.w, geo.tab(*ekt), geo.tab(*ekr))
                bk = (t[0], t[2], r[0], r[2])
                blocks[bk] = blocks[bk] + blk if bk in blocks else blk
            for (ct, st, cr, sr), blk in blocks.items():
                dt = Vt._comp_dofs(ct)[geo.cell_ids(st)]
                dr = Vr._comp_dofs(cr)[geo.cell_ids(sr)]
                rows.append(np.broadcast_to(dt[:, :, None], blk.shape).ravel())
                cols.append(np.broadcast_to(dr[:, None, :], blk.shape).ravel())
                vals.append(blk.ravel())
        n, m = Vt._ndofs, Vr._ndofs
        if n == m:  # PETSc needs structural diagonal entries
            rows.append(np.arange(n))
            cols.append(np.arange(n))
            vals.append(np.zeros(n))
        A = sp.coo_matrix(
            (np.concatenate(vals), (np.concatenate(rows), np.concatenate(cols))), shape=(n, m),
        ).tocsr()
        A.sum_duplicates()
        A.sort_indices()
        return A


def _elem(w, tt, tr):
    if tt.shape[0] == 1 and tr.shape[0] == 1:
        return np.einsum("nq,qi,qj->nij", w, tt[0], tr[0], optimize=True)
    tt = np.broadcast_to(tt, (len(w), *tt.shape[1:]))
    tr = np.broadcast_to(tr, (len(w), *tr.shape[1:]))
    return np.matmul((tt * w[:, :, None]).transpose(0, 2, 1), tr)


def form(f, dtype=None, form_compiler_options=None, jit_options=None, **_kw):
    if isinstance(f, ufl.Form):
        return Form(f)
    if isinstance(f, (list, tuple)):
        return [form(x) for x in f]
    return f


def assemble_scalar(M):
    if not isinstance(M, Form) or M.rank != 0:
        raise TypeError("assemble_scalar expects a compiled rank-0 form")
    return M.assemble_scalar()


def create_vector(L):
    return la.Vector(np.zeros(L.function_spaces[0]._ndofs))


def assemble_vector(L, form2=None, *_a, **_k):
    if form2 is not None:
        form2.assemble_vector(L)
        return L
    if not isinstance(L, Form) or L.rank != 1:
        raise TypeError("assemble_vector expects a compiled rank-1 form")
    return la.Vector(L.assemble_vector(np.zeros(L.function_spaces[0]._ndofs)))


def assemble_matrix(a, bcs=None, diagonal=1.0):
    if bcs:
        raise E.StandinUnsupported("boundary conditions")
    return a.assemble_csr()


def extract_function_spaces(forms):
    return [f.function_spaces for f in forms]


def locate_dofs_topological(*_a, **_k):
    raise E.StandinUnsupported("boundary conditions")


dirichletbc = locate_dofs_geometrical = locate_dofs_topological


class IntegralType:
    cell = 0
    exterior_facet = 1
    interior_facet = 2


def __getattr__(name):
    if name == "petsc":
        import importlib

        return importlib.import_module("dolfinx.fem.petsc")
    raise AttributeError(f"module 'dolfinx.fem' has no attribute {name!r}")
