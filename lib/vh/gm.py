"""GMRES: case generator, reference iteration, and the judge used by several properties."""
from __future__ import annotations

import ctypes
import os
import re
import tempfile

import numpy as np
from hypothesis import strategies as st

from vh.core import Violation, require

DEF = {"maxsteps": 100, "tol": 1e-12, "reltol": 1e-7, "restart": 1000}


# ---------------------------------------------------------------- systems
def system(c):
    """(A, M^-1, b) of a case; every entry is a pure function of the drawn values."""
    n = c["n"]
    rng = np.random.default_rng(c["mseed"])
    kind = c["kind"]
    if kind == "identity":
        A = np.eye(n)
    elif kind == "diag":
        A = np.diag(rng.choice([1.0, 2.0, 3.0, 5.0, -1.0, -4.0], size=n))
    elif kind == "shift":  # restarted iterations stagnate, the full one needs n steps
        A = np.roll(np.eye(n), 1, axis=0)
    elif kind == "spd":
        Q, _ = np.linalg.qr(rng.standard_normal((n, n)))
        A = Q @ np.diag(np.linspace(1.0, 30.0, n)) @ Q.T
    elif kind == "skew":
        W = rng.standard_normal((n, n))
        A = np.eye(n) + 0.7 * (W - W.T) / np.sqrt(n)
    elif kind == "cdiff":
        A = np.eye(n) + np.roll(np.eye(n), 1, axis=1) - np.roll(np.eye(n), -1, axis=1)
    elif kind == "dominant":
        A = np.eye(n) * 4.0 + rng.standard_normal((n, n)) / np.sqrt(n)
    elif kind == "nonnormal":
        A = np.diag(np.linspace(1.0, 3.0, n)) + np.triu(rng.standard_normal((n, n)), 1) * (1.5 / np.sqrt(n))
    elif kind == "indefinite":
        Q, _ = np.linalg.qr(rng.standard_normal((n, n)))
        d = np.where(np.arange(n) % 2 == 0, 1.0, -1.0) * (1.0 + np.arange(n) / n)
        A = Q @ np.diag(d) @ Q.T
    else:
        raise ValueError(kind)
    A = A * c["ascale"]
    pk = c["pre"]
    if pk == "identity":
        P = np.eye(n)
    elif pk == "scaled":
        P = np.eye(n) * c["pscale"]
    elif pk == "diag":
        P = np.diag(1.0 + rng.random(n) * 4.0) * c["pscale"]
    elif pk == "dense":
        P = (np.eye(n) + 0.4 * rng.standard_normal((n, n)) / np.sqrt(n)) * c["pscale"]
    elif pk == "nearinv":
        P = np.linalg.inv(A) @ (np.eye(n) + 0.3 * rng.standard_normal((n, n)) / np.sqrt(n))
    elif pk == "inverse":
        P = np.linalg.inv(A)
    else:
        raise ValueError(pk)
    bk = c["rhs"]
    if bk == "zero":
        b = np.zeros(n)
    elif bk == "e1":
        b = np.eye(n)[0].copy()
    elif bk == "ones":
        b = np.ones(n)
    elif bk == "image":
        b = A @ rng.integers(-3, 4, size=n)
    else:
        b = rng.standard_normal(n)
    return A, P, b * c["bscale"]


def opts_of(c):
    return {k: (DEF[k] if c[k] is None else c[k]) for k in DEF}


def kwargs_of(c):
    kw = {k: c[k] for k in ("tol", "reltol", "restart") if c[k] is not None or c.get("explicit_none")}
    if c["maxsteps"] is not None:
        kw["maxsteps"] = c["maxsteps"]
    if c["print"] is not None:
        kw["printrates"] = c["print"]
    return kw


@st.composite
def cases(draw, nmax=24, big=False):
    n = draw(st.integers(1, nmax))
    kind = draw(st.sampled_from(
        ["dominant", "nonnormal", "skew", "spd", "shift", "cdiff", "indefinite", "diag", "identity"]))
    if big:
        n = draw(st.integers(25, 160))
        kind = draw(st.sampled_from(["shift", "cdiff", "spd", "dominant", "nonnormal"]))
    c = {
        "n": n, "kind": kind, "mseed": draw(st.integers(0, 10**6)),
        "ascale": draw(st.sampled_from([1.0, 1.0, 1e-2, 50.0, 1e3])),
        "pre": draw(st.sampled_from(["identity", "scaled", "diag", "dense", "nearinv", "inverse"]))
        if kind not in ("shift",) or draw(st.booleans()) else "identity",
        "pscale": draw(st.sampled_from([1.0, 1e-3, 0.2, 7.0, 1e3])),
        "rhs": draw(st.sampled_from(["random"] * 5 + ["ones", "e1", "image", "zero"])),
        "bscale": draw(st.sampled_from([1.0, 1.0, 1e-8, 1e-5, 1e3, 1e-3])),
        "tol": draw(st.sampled_from([None, None, 0.0, 1e-9, 1e-6, 1e-4, 1e-2])),
        "reltol": draw(st.sampled_from([None, None, 0.0, 1e-9, 1e-5, 1e-3, 1e-1, 0.5])),
        "restart": draw(st.sampled_from([None, None, None, 1, 2, 3, 5, 8, 30, 200])),
        "maxsteps": draw(st.sampled_from([None, None, 1, 2, 3, 5, 10, 20, 60, 150, 400])),
        "explicit_none": draw(st.booleans()), "print": draw(st.booleans()),
    }
    if draw(st.integers(0, 3)) == 0:
        c["maxsteps"] = draw(st.integers(1, max(1, 2 * n)))
    if draw(st.integers(0, 3)) == 0:
        c["restart"] = draw(st.integers(1, max(1, n + 1)))
    return c


# ---------------------------------------------------------------- reference
def reference(B, c0, restart, maxits):
    """Residual norms of (restarted) GMRES for B x = c0, x0 = 0; entry i after i steps.

    Each cycle minimises ||r - B V y|| with an incremental orthonormal basis of B V
    (an independent formulation: no Hessenberg least squares).
    """
    n = len(c0)
    x = np.zeros(n)
    rho = [float(np.linalg.norm(c0))]
    r0 = rho[0]
    while len(rho) - 1 < maxits:
        r = c0 - B @ x
        beta = np.linalg.norm(r)
        if beta <= 1e-15 * r0 or beta == 0.0:
            break
        m = min(restart, maxits - (len(rho) - 1), n)
        V = np.zeros((n, m + 1))
        Q = np.zeros((n, m))
        R = np.zeros((m, m))
        V[:, 0] = r / beta
        done, k, res = False, 0, r.copy()
        for j in range(m):
            w = B @ V[:, j]
            nw = np.linalg.norm(w)
            if nw == 0.0:
                done = True
                break
            u = w.copy()
            for _ in range(2):
                h = Q[:, :j].T @ u
                R[:j, j] += h
                u = u - Q[:, :j] @ h
            R[j, j] = np.linalg.norm(u)
            if R[j, j] <= 1e-14 * nw:
                done = True
                break
            Q[:, j] = u / R[j, j]
            res = res - Q[:, j] * (Q[:, j] @ res)
            k = j + 1
            rho.append(float(np.linalg.norm(res)))
            v = w
            for _ in range(2):
                v = v - V[:, : j + 1] @ (V[:, : j + 1].T @ v)
            nv = np.linalg.norm(v)
            if nv <= 1e-13 * nw:
                done = True
                break
            V[:, j + 1] = v / nv
        if k:
            x = x + V[:, :k] @ np.linalg.solve(R[:k, :k], Q[:, :k].T @ r)
        if done or k == 0 or (m == n and rho[-1] <= 1e-13 * r0):
            break
    return rho


# ---------------------------------------------------------------- contexts
def spoil(y, how):
    """how: 0 all NaN, 1 all infinite, 2 one NaN, 3 one infinite, 4 so large that the norm overflows."""
    if how < 2:
        y.array[:] = (np.nan, np.inf)[how]
    elif how < 4:
        y.array[-1:] = (np.nan, -np.inf)[how - 2]
    else:
        y.array[:] = 1e300


class MatCtx:
    how = 0

    def __init__(self, A, poison=None):
        self.A, self.calls, self.poison = A, 0, poison

    def mult(self, mat, x, y):  # noqa: ARG002
        self.calls += 1
        y.array[:] = self.A @ x.array
        if self.poison is not None and self.calls == self.poison:
            spoil(y, self.how)


class PreCtx:
    how = 1

    def __init__(self, P, poison=None):
        self.P, self.calls, self.poison = P, 0, poison

    def apply(self, pc, x, y):  # noqa: ARG002
        self.calls += 1
        y.array[:] = self.P @ x.array
        if self.poison is not None and self.calls == self.poison:
            spoil(y, self.how)


def vec(b):
    from petsc4py import PETSc

    v = PETSc.Vec().createSeq(len(b))
    v.array[:] = b
    return v


_libc = ctypes.CDLL(None)


class CaptureStdout:
    """Everything written to fd 1 (Python and C) inside the block, as text."""

    def __enter__(self):
        import sys

        sys.stdout.flush()
        _libc.fflush(None)
        self._saved = os.dup(1)
        self._f = tempfile.TemporaryFile()
        os.dup2(self._f.fileno(), 1)
        return self

    def __exit__(self, *exc):
        import sys

        sys.stdout.flush()
        _libc.fflush(None)
        os.dup2(self._saved, 1)
        os.close(self._saved)
        self._f.seek(0)
        self.text = self._f.read().decode(errors="replace")
        self._f.close()
        return False


LINE = re.compile(r"GMRes iteration\s+(\d+), residual = (\S+)")


def lines(text):
    return [(int(a), float(b)) for a, b in LINE.findall(text)]


class Result:
    def __init__(self):
        self.raised = None
        self.x = self.r = None


def call(c, ctx=None, extra=None, b=None):
    """Run the real solver on a case."""
    from petsc4py import PETSc

    from dxss.gmres import get_gmres_solution

    A, P, bb = system(c)
    out = Result()
    out.A, out.P, out.b = A, P, bb
    out.mat, out.pre = ctx or (MatCtx(A), PreCtx(P))
    out.vb = vec(bb) if b is None else b
    kw = kwargs_of(c)
    kw.update(extra or {})
    with CaptureStdout() as cap:
        try:
            x, r = get_gmres_solution(out.mat, out.vb, out.pre, **kw)
            out.vx, out.vr = x, r
            out.x, out.r = np.array(x.array), np.array(r.array)
        except PETSc.Error as e:
            out.raised = e
    out.text = cap.text
    return out


# ---------------------------------------------------------------- judge
def analyse(c, A, P, b, o=None):
    o = o or opts_of(c)
    B, c0 = P @ A, P @ b
    rho0 = float(np.linalg.norm(c0))
    target = max(o["reltol"] * rho0, o["tol"])
    cond = float(np.linalg.cond(B))
    floor = 1e-13 * cond * rho0 + 1e-14 * np.linalg.norm(P, 2) * np.linalg.norm(b)
    return {"B": B, "c0": c0, "rho0": rho0, "target": target, "floor": floor, "cond": cond, "o": o}


def judge_returned(c, res, a, residual=True):
    """x meets the criterion and r is the true residual."""
    n = len(res.b)
    require(res.x.shape == (n,) and res.r.shape == (n,), "solution/residual have the wrong length")
    require(np.isfinite(res.x).all(), "a solution with non-finite entries was returned")
    true = res.b - res.A @ res.x
    sc = np.linalg.norm(res.b) + np.linalg.norm(res.A, 2) * np.linalg.norm(res.x)
    d = float(np.linalg.norm(res.r - true))
    require(not residual or d <= 1e-11 * sc, lambda: f"returned residual is not b - A x: off by {d:.3e} (scale {sc:.3e})")
    if a["target"] < 50 * a["floor"]:  # more than double precision can deliver for this system
        return False
    pres = float(np.linalg.norm(res.P @ true))
    slack = 1e-12 * np.linalg.norm(res.P, 2) * sc
    require(
        pres <= 1.001 * a["target"] + slack,
        lambda: f"returned x has preconditioned residual {pres:.6e} > requested {a['target']:.6e}"
        f" (initial {a['rho0']:.3e}, options {a['o']})",
    )
    return True


def judge_decision(c, res, a):
    """Converged iff the reference says it must (grey zone: no verdict).  Returns label."""
    o = a["o"]
    if a["rho0"] <= a["target"]:
        require(res.raised is None, "raised although the initial residual already meets the tolerance")
        return "immediate"
    rho = reference(a["B"], a["c0"], o["restart"], o["maxsteps"])
    best = min(rho)
    if best <= 0.5 * a["target"] and a["target"] >= 50 * a["floor"]:
        require(
            res.raised is None,
            lambda: f"raised although {rho.index(best)} <= maxsteps={o['maxsteps']} steps (restart {o['restart']})"
            f" reach {best:.3e} < target {a['target']:.3e}",
        )
        # work: stops at the first step meeting the tolerance (grey zone: factor 1.01)
        first = next(i for i, v in enumerate(rho) if v <= 0.99 * a["target"])
        cyc = first // max(1, o["restart"]) + 1
        return "must-converge", first, cyc, rho
    if best > 1.01 * a["target"] + 2 * a["floor"] and len(rho) - 1 >= o["maxsteps"]:
        require(
            res.raised is not None,
            lambda: f"returned although {o['maxsteps']} steps (restart {o['restart']}) only reach {best:.3e}"
            f" > target {a['target']:.3e}; returned residual {np.linalg.norm(res.P @ (res.b - res.A @ res.x)):.3e}",
        )
        return "must-fail"
    return "grey"


def work_ok(res, o):
    """Operator/preconditioner applications are bounded by the step budget."""
    k, r = o["maxsteps"], max(1, o["restart"])
    bound = k + k // r + 4
    if res.mat.calls > bound or res.pre.calls > bound:
        msg = f"{res.mat.calls} products / {res.pre.calls} preconditioner calls for maxsteps={k}, restart={o['restart']}"
        raise Violation(msg)
