"""Independent reference for the space-time method.

Everything here is built from dense one-dimensional integrals in time (exact rationals,
vh.tm) and spatial matrices assembled directly from tabulated Lagrange bases; no UFL form
and no code of the package is involved.  Fields: 0 = u1, 1 = u2, 2 = z1, 3 = z2 as trial,
w1, w2, y1, y2 as test.
"""
from __future__ import annotations

import itertools

import numpy as np
import scipy.sparse as sp
from dolfinx import _engine as E

from vh import tm


class Space:
    """Spatial matrices on one mesh for Lagrange spaces of given degrees."""

    def __init__(self, mesh):
        self.m = mesh
        self.d = mesh._tdim
        self.xv = mesh._x[mesh._cells]  # (nc, nv, g)
        self.nc = len(mesh._cells)
        diff = self.xv[:, :, None, :] - self.xv[:, None, :, :]
        self.h = np.sqrt((diff**2).sum(-1)).max(axis=(1, 2))  # longest vertex distance
        rv = E.ref_vertices(mesh._cell)
        o = np.where(rv.sum(1) == 0)[0][0]
        ax = [np.where((rv == np.eye(self.d)[i]).all(1))[0][0] for i in range(self.d)]
        self.x0 = self.xv[:, o]
        self.J = np.stack([self.xv[:, a] - self.x0 for a in ax], axis=2)
        self.det = np.abs(np.linalg.det(self.J))
        self.K = np.linalg.inv(self.J)
        self._c = {}
        self._facets()

    # -- topology of facets by vertex sets
    def _facets(self):
        rv = E.ref_vertices(self.m._cell)
        box = not E.CELLS[self.m._cell]["simplex"]
        if self.d == 1:
            loc = [[0], [1]]
        elif box:
            loc = [[i for i in range(len(rv)) if rv[i, a] == s] for a in range(self.d) for s in (0, 1)]
        else:
            loc = [[j for j in range(self.d + 1) if j != i] for i in range(self.d + 1)]
        table = {}
        for c, l in itertools.product(range(self.nc), range(len(loc))):
            table.setdefault(tuple(sorted(int(v) for v in self.m._cells[c][loc[l]])), []).append((c, l))
        self.loc = loc
        self.ext = [v[0] for v in table.values() if len(v) == 1]
        self.int = [v for v in table.values() if len(v) == 2]
        self.box = box

    def _fquad(self, c, l, deg):
        """physical points, weights, outward normal of a facet."""
        v = self.xv[c][self.loc[l]]
        cen = self.xv[c].mean(0)
        if self.d == 1:
            return v, np.ones(1), np.sign(v[0] - cen)
        fc = {2: "interval", 3: "quadrilateral" if self.box else "triangle"}[self.d]
        X, w = E.quadrature(fc, deg)
        tang = np.array([v[i] - v[0] for i in (range(1, self.d))])
        pts = v[0] + X @ tang
        if self.d == 2:
            t = tang[0]
            n, meas = np.array([t[1], -t[0]]), np.linalg.norm(t)
        else:
            n = np.cross(tang[0], tang[1])
            meas = np.linalg.norm(n)
        n = n / np.linalg.norm(n)
        if n @ (v[0] - cen) < 0:
            n = -n
        return pts, w * meas, n

    def dofs(self, k):
        return E.scalar_dofs(self.m, k, True)

    def ndof(self, k):
        return self.dofs(k)[1]

    def _basis(self, k, X, der, K):
        """values / gradients / Laplacians at reference points X of one cell with inverse Jacobian K."""
        el = E.ref_element(self.m._cell, k, True)
        d = self.d
        if der == 0:
            return el.tabulate((0,) * d, X)
        if der == 1:
            g = np.stack([el.tabulate(tuple(int(i == a) for i in range(d)), X) for a in range(d)])
            return np.einsum("aqi,ag->qig", g, K)
        G = K @ K.T
        out = 0.0
        for a, b in itertools.product(range(d), range(d)):
            e = [0] * d
            e[a] += 1
            e[b] += 1
            out = out + G[a, b] * el.tabulate(tuple(e), X)
        return out

    def _asm(self, kr, kc, blocks):
        r, c, v = [], [], []
        for dr, dc, b in blocks:
            r.append(np.repeat(dr, len(dc)))
            c.append(np.tile(dc, len(dr)))
            v.append(b.ravel())
        if not r:
            return sp.csr_matrix((self.ndof(kr), self.ndof(kc)))
        return sp.coo_matrix((np.concatenate(v), (np.concatenate(r), np.concatenate(c))),
                             shape=(self.ndof(kr), self.ndof(kc))).tocsr()

    def cellmat(self, kr, kc, dr, dc, wt=None):
        """int wt D^dr phi_row . D^dc phi_col, derivative codes 0 value, 1 gradient, 2 Laplacian."""
        key = ("c", kr, kc, dr, dc, None if wt is None else wt.tobytes())
        if key not in self._c:
            X, w = E.quadrature(self.m._cell, kr + kc + (self.d if self.box else 0))
            mr, mc = self.dofs(kr)[0], self.dofs(kc)[0]
            bl = []
            for e in range(self.nc):
                a, b = self._basis(kr, X, dr, self.K[e]), self._basis(kc, X, dc, self.K[e])
                ww = w * self.det[e] * (1.0 if wt is None else wt[e])
                bl.append((mr[e], mc[e], np.einsum("q,qig,qjg->ij", ww, a, b) if dr == 1 else np.einsum("q,qi,qj->ij", ww, a, b)))
            self._c[key] = self._asm(kr, kc, bl)
        return self._c[key]

    def _ref(self, e, p):
        return (p - self.x0[e]) @ self.K[e].T

    def bmass(self, k, over_h):
        """int_boundary (1/h) phi phi."""
        key = ("b", k, over_h)
        if key not in self._c:
            bl = []
            dm = self.dofs(k)[0]
            for e, l in self.ext:
                p, w, _ = self._fquad(e, l, 2 * k)
                a = self._basis(k, self._ref(e, p), 0, self.K[e])
                bl.append((dm[e], dm[e], np.einsum("q,qi,qj->ij", w / (self.h[e] if over_h else 1.0), a, a)))
            self._c[key] = self._asm(k, k, bl)
        return self._c[key]

    def bnormal(self, kr, kc):
        """int_boundary phi_row (n . grad phi_col)."""
        key = ("n", kr, kc)
        if key not in self._c:
            bl = []
            dr, dc = self.dofs(kr)[0], self.dofs(kc)[0]
            for e, l in self.ext:
                p, w, n = self._fquad(e, l, kr + kc)
                X = self._ref(e, p)
                a, g = self._basis(kr, X, 0, self.K[e]), self._basis(kc, X, 1, self.K[e])
                bl.append((dr[e], dc[e], np.einsum("q,qi,qjg,g->ij", w, a, g, n)))
            self._c[key] = self._asm(kr, kc, bl)
        return self._c[key]

    def jumpgrad(self, k):
        """int_interior-facets avg(h) [grad phi].[grad phi]."""
        key = ("j", k)
        if key not in self._c:
            bl = []
            dm = self.dofs(k)[0]
            for (e1, l1), (e2, _l2) in self.int:
                p, w, _ = self._fquad(e1, l1, 2 * k)
                g1 = self._basis(k, self._ref(e1, p), 1, self.K[e1])
                g2 = self._basis(k, self._ref(e2, p), 1, self.K[e2])
                d = np.concatenate([dm[e1], dm[e2]])
                g = np.concatenate([g1, -g2], axis=1)
                bl.append((d, d, 0.5 * (self.h[e1] + self.h[e2]) * np.einsum("q,qig,qjg->ij", w, g, g)))
            self._c[key] = self._asm(k, k, bl)
        return self._c[key]

    def load(self, k, f, deg, wt=None):
        """int wt f phi for f(points (n, g)) -> (n,)."""
        X, w = E.quadrature(self.m._cell, deg)
        dm, n, _ = self.dofs(k)
        out = np.zeros(n)
        for e in range(self.nc):
            p = self.x0[e] + X @ self.J[e].T
            v = w * self.det[e] * f(p) * (1.0 if wt is None else wt[e])
            np.add.at(out, dm[e], v @ self._basis(k, X, 0, self.K[e]))
        return out

    def l2(self, k, coef, f, deg):
        """sqrt(int (u_h - f)^2)."""
        X, w = E.quadrature(self.m._cell, deg)
        dm = self.dofs(k)[0]
        s = 0.0
        for e in range(self.nc):
            p = self.x0[e] + X @ self.J[e].T
            s += np.sum(w * self.det[e] * (self._basis(k, X, 0, self.K[e]) @ coef[dm[e]] - f(p)) ** 2)
        return s

    def midpoints(self):
        return self.xv.mean(1)

    def nodes(self, k):
        return self.dofs(k)[2]

    def boundary_dofs(self, k):
        """dofs whose basis function does not vanish on the boundary."""
        B = self.bmass(k, False)
        return np.where(np.asarray(abs(B).sum(axis=1)).ravel() > 1e-14)[0]


class Layout:
    """Offsets of the reference numbering: field-major, then slab, then time node, then space dof."""

    def __init__(self, sp_, q, qs, k, ks, N):
        self.q, self.qs, self.k, self.ks, self.N = q, qs, k, ks, N
        self.nt = [q + 1, q + 1, qs + 1, qs + 1]
        self.kk = [k, k, ks, ks]
        self.ns = [sp_.ndof(a) for a in self.kk]
        self.size = [N * t * n for t, n in zip(self.nt, self.ns)]
        self.off = np.concatenate([[0], np.cumsum(self.size)])
        self.n = int(self.off[-1])

    def idx(self, f, slab, node):
        s = self.off[f] + (slab * self.nt[f] + node) * self.ns[f]
        return np.arange(s, s + self.ns[f])

    def permutation(self, V):
        """perm[reference index] = index in the (mixed) space V of the package."""
        perm = np.empty(self.n, dtype=np.int64)
        for f in range(4):
            Vf = V.sub(f)
            for t in range(self.N * self.nt[f]):
                m = np.asarray(Vf.sub(t).collapse()[1])
                s = self.off[f] + t * self.ns[f]
                perm[s : s + self.ns[f]] = m
        return perm


def time_kron(L, f, g, T, Sp, slabs):
    """sum over slabs of T (x) Sp at block (f, g)."""
    I = sp.coo_matrix((np.ones(len(slabs)), (slabs, slabs)), shape=(L.N, L.N))  # noqa: E741
    return sp.kron(I, sp.kron(sp.csr_matrix(T), Sp), format="coo")


class Form:
    """Assembles the bilinear form of the method term by term (see Method.terms)."""

    def __init__(self, space, L, p):
        """p: dict(dt, data, dual, primal, pj, lam, omega (per-cell), well_posed, jumps)."""
        self.S, self.L, self.p = space, L, p
        self.A = {}

    def _add(self, name, f, g, T, Sp, slabs=None):
        M = time_kron(self.L, f, g, T, Sp, list(range(self.L.N)) if slabs is None else slabs)
        self._put(name, f, g, M)

    def _put(self, name, f, g, M):
        M = M.tocoo()
        r, c = M.row + self.L.off[f], M.col + self.L.off[g]
        X = sp.coo_matrix((M.data, (r, c)), shape=(self.L.n, self.L.n)).tocsr()
        self.A[name] = self.A[name] + X if name in self.A else X

    def _node(self, f, slab, node):
        v = np.zeros(self.L.N * self.L.nt[f])
        v[slab * self.L.nt[f] + node] = 1.0
        return v

    def build(self):
        S, L, p = self.S, self.L, self.p
        q, qs, k, ks = L.q, L.qs, L.k, L.ks
        dt = p["dt"]
        m = tm.matrices(q, qs)
        Mt, Dt = m["M_time_q_qstar"], m["DM_time_q_qstar"]
        Mq, Ms, Dq, Dd = m["M_time_q_q"], m["M_time_qstar_qstar"], m["DM_time_q_q"], m["DDM_time_q_q"]
        Mx, Kx = S.cellmat(ks, k, 0, 0), S.cellmat(ks, k, 1, 1)
        Bn = S.bnormal(ks, k)
        # PDE constraint: y-rows, u-columns, and its transpose
        for (f, g, T, X) in [
            (2, 1, Dt, Mx), (2, 0, dt * Mt, Kx), (2, 0, -dt * Mt, Bn), (3, 0, Dt, Mx), (3, 1, -dt * Mt, Mx),
        ]:
            self._add("pde", f, g, T, X)
            self._add("pde", g, f, T.T, X.T)
        Mk = S.cellmat(k, k, 0, 0)
        Kk = S.cellmat(k, k, 1, 1)
        self._add("data", 0, 0, p["data"] * dt * Mq, S.cellmat(k, k, 0, 0, p["omega"]))
        gd = p["dual"]
        Ms_x, Ks_x = S.cellmat(ks, ks, 0, 0), S.cellmat(ks, ks, 1, 1)
        self._add("dual", 2, 2, -gd * dt * Ms, Ms_x + Ks_x + p["lam"] * S.bmass(ks, True))
        self._add("dual", 3, 3, -gd * dt * Ms, Ms_x)
        gp = p["primal"]
        h2 = S.h**2
        self._add("primal", 0, 0, gp * dt * Mq, p["lam"] * S.bmass(k, True) + S.jumpgrad(k) + S.cellmat(k, k, 2, 2, h2))
        self._add("primal", 0, 0, gp / dt * Dd, Mk)
        self._add("primal", 1, 1, gp * dt * Mq, Mk)
        self._add("primal", 1, 1, gp / dt * Dd, S.cellmat(k, k, 0, 0, h2))
        # -(u2, d_t w1) and its transpose;  -h^2 (d_t u2, Lap w1) and its transpose
        self._add("primal", 0, 1, -gp * Dq.T, Mk)
        self._add("primal", 1, 0, -gp * Dq, Mk)
        Lap = S.cellmat(k, k, 2, 0, h2)  # rows carry the Laplacian
        self._add("primal", 0, 1, -gp * Dq, Lap)
        self._add("primal", 1, 0, -gp * Dq.T, Lap.T)
        # terms coupling the slabs
        pj = p["pj"]
        W1 = pj / dt * Mk + pj * dt * Kk
        W2 = pj / dt * Mk
        e = lambda f, n, i: sp.csr_matrix(self._node(f, n, i)[:, None])  # noqa: E731
        for n in range(1, L.N):
            for f, W in ((0, W1), (1, W2)):
                up, um = e(f, n, 0), e(f, n - 1, q)
                self._put("pjump", f, f, sp.kron((up - um) @ (up - um).T, W))
                self._put("pjump-pre", f, f, sp.kron(up @ (up - um).T, W))
            for f, g in ((1, 2), (0, 3)):  # (w2, z1), (w1, z2) and transposes
                J = (e(f, n, 0) - e(f, n - 1, q)) @ e(g, n, 0).T
                B = sp.kron(J, Mx.T)
                self._put("fwjump", f, g, B)
                self._put("fwjump", g, f, B.T)
            for g in (2, 3):
                self._put("dualjump", g, g, sp.kron(e(g, n, 0) @ e(g, n, 0).T, -gd * dt * Ms_x))
        for f, W in ((0, W1), (1, W2)):
            self._put("initial", f, f, sp.kron(e(f, 0, 0) @ e(f, 0, 0).T, W))
        zero = sp.csr_matrix((L.n, L.n))
        for name in ("pjump", "pjump-pre", "fwjump", "dualjump"):
            self.A.setdefault(name, zero)
        return self

    def total(self, precond=False):
        a = self.A
        M = a["pde"] + a["data"] + a["dual"] + a["primal"] + (a["pjump-pre"] if precond else a["pjump"])
        if self.p["well_posed"]:
            M = M + a["initial"]
        if self.p["jumps"]:
            M = M + a["fwjump"] + a["dualjump"]
        return M.tocsr()

    def slab(self, with_jumps):
        """The matrix of one slab (layout with N = 1)."""
        a = self.A
        M = a["pde"] + a["data"] + a["dual"] + a["primal"]
        if with_jumps:
            M = M + a["initial"]
        return M.tocsr()
