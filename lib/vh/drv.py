"""Loading the driver modules (solve_1d/2d/3d) with small problems and a substitute direct-solver library.

The drivers are scripts with module-level constants that users edit.  `load` imports a fresh copy in
which the named constants have other values, and records what the driver asks of its SpaceTime.
"""
from __future__ import annotations

import ast
import contextlib
import importlib
import sys
import types
import warnings

import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as spl

from vh.core import HarnessError, require
from vh.env import SRC


# ------------------------------------------------------------- substitute pypardiso
class FakePardiso:
    """The part of pypardiso.PyPardisoSolver that is phase based; checks how it is driven."""

    made: list = []

    def __init__(self, mtype=11, phase=13, size_limit_storage=5e7):  # noqa: ARG002
        self.mtype, self.phase = mtype, phase
        self._lu, self._fact = None, None
        self.solves = 0
        FakePardiso.made.append(self)

    def factorize(self, A):
        self._check_A(A)
        self.set_phase(12)
        self._call_pardiso(A, np.zeros((A.shape[0], 1)))

    def solve(self, A, b):
        self._check_A(A)
        b = self._check_b(A, b)
        self.set_phase(33 if self._same(A) else 13)
        return self._call_pardiso(A, b)

    def set_phase(self, phase):
        self.phase = phase

    def _same(self, A):
        f = self._fact
        return f is not None and f.shape == A.shape and abs(f - A).max() == 0 if f is not None and f.shape == A.shape else False

    def _check_A(self, A):
        if A.shape[0] != A.shape[1]:
            raise ValueError(f"Matrix A needs to be square, but has shape: {A.shape}")
        if not sp.isspmatrix_csr(A) and not isinstance(A, sp.csr_array):
            raise TypeError(f"PyPardiso requires matrix A to be in CSR format, but matrix A is: {type(A)}")
        if A.dtype != np.float64:
            raise TypeError(f"PyPardiso currently only supports float64, but matrix A has dtype: {A.dtype}")
        if np.any(np.diff(A.indptr) == 0):
            raise ValueError("Matrix A is singular, because it contains empty row(s)")

    def _check_b(self, A, b):
        if sp.issparse(b):
            raise TypeError("right-hand side must be dense")
        if b.shape[0] != A.shape[0]:
            raise ValueError(f"Dimension mismatch: Matrix A {A.shape} and array b {b.shape}")
        return np.asfortranarray(b, dtype=np.float64)

    def _call_pardiso(self, A, b):
        x = np.zeros_like(b)
        if self.phase in (12, 13):
            self._fact = sp.csr_matrix(A, copy=True)
            self._lu = spl.splu(self._fact.tocsc())
        if self.phase in (13, 33):
            if self._lu is None:
                raise RuntimeError("The Pardiso solver failed with error code -3. (phase 33 without factorisation)")
            self.solves += 1
            x = self._lu.solve(np.asarray(b))
            # PARDISO refines iteratively with the matrix passed in; one step of it
            if A.shape == self._fact.shape:
                x = x + self._lu.solve(np.asarray(b) - A @ x)
        return x


def fake_pypardiso():
    m = types.ModuleType("pypardiso")
    m.PyPardisoSolver = FakePardiso
    m.ps = FakePardiso()
    m.spsolve = lambda A, b, **_k: FakePardiso().solve(A, b)
    m.factorized = lambda A: (lambda b: FakePardiso().solve(A, b))
    m.__version__ = "0.4.5"
    FakePardiso.made.clear()
    return m


# ------------------------------------------------------------- loading
def _override(tree, values):
    """Replaces the right-hand sides of the module-level assignments to `values`' names (also `a = b = 1` and `a, b = 1, 2`)."""
    done = set()

    def const(name, node):
        done.add(name)
        return ast.copy_location(ast.parse(repr(values[name]), mode="eval").body, node)

    body = []
    for node in tree.body:
        body.append(node)
        if isinstance(node, ast.Assign):
            for tgt in node.targets:
                if isinstance(tgt, ast.Name) and tgt.id in values:
                    if len(node.targets) == 1:
                        node.value = const(tgt.id, node.value)
                    else:  # rebound right afterwards
                        body.append(ast.copy_location(ast.Assign(targets=[ast.Name(id=tgt.id, ctx=ast.Store())], value=const(tgt.id, node.value)), node))
                elif isinstance(tgt, (ast.Tuple, ast.List)):
                    for el in tgt.elts:
                        if isinstance(el, ast.Name) and el.id in values:
                            body.append(ast.copy_location(ast.Assign(targets=[ast.Name(id=el.id, ctx=ast.Store())], value=const(el.id, node.value)), node))
        elif isinstance(node, ast.AnnAssign) and node.value is not None and isinstance(node.target, ast.Name) and node.target.id in values:
            node.value = const(node.target.id, node.value)
    tree.body = body
    ast.fix_missing_locations(tree)
    return done


class Recorded:
    def __init__(self):
        self.objects = []  # SpaceTime objects the driver made
        self.args = []
        self.measured = []  # (coefficient vector, result)
        self.plotted = []
        self.written = []


@contextlib.contextmanager
def _patched_spacetime(rec, limit):
    import dxss.space_time as stm

    real = stm.SpaceTime

    class SpaceTime(real):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            rec.objects.append(self)

        def setup_spacetime_finite_elements(self, *a, **k):
            out = super().setup_spacetime_finite_elements(*a, **k)
            n = self.fes.dofmap.index_map.size_local if hasattr(self.fes.dofmap, "index_map") else 0
            if n > limit:
                raise HarnessError(f"driver problem has {n} unknowns: its size constants could not be overridden")
            return out

        def measured_errors(self, vec, *a, **k):
            before = np.array(vec.array)
            out = super().measured_errors(vec, *a, **k)
            rec.measured.append((before, np.array(vec.array), out))
            return out

        def plot_error(self, vec, *a, **k):
            rec.plotted.append((np.array(vec.array), a, k))

        def plot_para_view(self, vec, *a, **k):
            rec.written.append((np.array(vec.array), a, k))
            return super().plot_para_view(vec, *a, **k)

    stm.SpaceTime = SpaceTime
    try:
        yield
    finally:
        stm.SpaceTime = real


@contextlib.contextmanager
def _patched_meshes(levels):
    import dxss.meshes as mm

    real = mm.get_mesh_data_all_around

    def small(n_ref, *a, **k):
        return real(min(n_ref, levels), *a, **k)

    mm.get_mesh_data_all_around = small
    try:
        yield
    finally:
        mm.get_mesh_data_all_around = real


def load(dim, values=None, pardiso=None, limit=20000, levels=1):
    """A fresh copy of the driver with constants `values`; pardiso: None (absent) or a module."""
    from vh import stx

    stx._memo_elmat()
    name = f"dxss.solve_{dim}d"
    path = SRC / "dxss" / f"solve_{dim}d.py"
    if not path.is_file():
        raise HarnessError(f"{path} not found")
    tree = ast.parse(path.read_text(), str(path))
    done = _override(tree, values or {})
    missing = set(values or {}) - done
    mod = types.ModuleType(name)
    mod.__file__ = str(path)
    mod.__package__ = "dxss"
    rec = Recorded()
    saved = sys.modules.get("pypardiso", "absent")
    sys.modules["pypardiso"] = pardiso
    # helpers the drivers may share must see the substitute, too
    for k in [k for k in sys.modules if k.startswith("dxss.") and k not in ("dxss.space_time", "dxss.precomp_time_int", "dxss.meshes", "dxss.gmres")]:
        sys.modules.pop(k)
    old = sys.modules.get(name)
    sys.modules[name] = mod
    try:
        with _patched_spacetime(rec, limit), _patched_meshes(levels), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            exec(compile(tree, str(path), "exec"), mod.__dict__)  # noqa: S102
    finally:
        if old is None:
            sys.modules.pop(name, None)
        else:
            sys.modules[name] = old
        if saved == "absent":
            sys.modules.pop("pypardiso", None)
        else:
            sys.modules["pypardiso"] = saved
    mod._rec = rec
    mod._missing = missing
    return mod


_ = importlib, require
