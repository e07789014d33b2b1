import numpy as np
from petsc4py import PETSc

from dolfinx import _engine as E
from dolfinx.fem import Form


def create_vector(L):
    if L.rank != 1:
        raise TypeError("create_vector expects a linear form")
    v = PETSc.Vec().createSeq(L.function_spaces[0]._ndofs, comm=PETSc.COMM_SELF)
    v.set(0.0)
    return v


def assemble_vector(b_or_L, L=None, *_a, **_k):
    """One argument: new vector. Two arguments: add into b (b is *not* zeroed)."""
    if L is None:
        L, b = b_or_L, create_vector(b_or_L)
    else:
        b = b_or_L
    if not isinstance(L, Form) or L.rank != 1:
        raise TypeError("assemble_vector expects a compiled rank-1 form")
    b.array[:] += L.assemble_vector(np.zeros(b.getSize()))
    return b


def _to_petsc(A):
    n, m = A.shape
    M = PETSc.Mat().createAIJ(
        size=(n, m),
        csr=(A.indptr.astype(PETSc.IntType), A.indices.astype(PETSc.IntType), A.data.astype(PETSc.ScalarType)),
        comm=PETSc.COMM_SELF,
    )
    return M


def create_matrix(a, mat_type=None):
    A = a.assemble_csr()
    A.data[:] = 0.0
    return _to_petsc(A)


def assemble_matrix(a, *args, bcs=(), diagonal=1.0, **_k):
    """assemble_matrix(form[, bcs]) -> new Mat, or assemble_matrix(A, form[, bcs]) adds into A."""
    if isinstance(a, PETSc.Mat):
        form, rest = args[0], args[1:]
    else:
        form, rest = a, args
    if rest:
        bcs = rest[0]
    if bcs:
        raise E.StandinUnsupported("boundary conditions")
    if not isinstance(form, Form) or form.rank != 2:
        raise TypeError("assemble_matrix expects a compiled bilinear form")
    M = _to_petsc(form.assemble_csr())
    if isinstance(a, PETSc.Mat):
        M.assemble()
        a.assemble()
        a.axpy(1.0, M)
        return a
    return M


def set_bc(*_a, **_k):
    raise E.StandinUnsupported("boundary conditions")


apply_lifting = set_bc
