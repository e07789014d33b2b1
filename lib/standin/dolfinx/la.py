import numpy as np


class Vector:
    def __init__(self, arr):
        self.array = arr

    @property
    def petsc_vec(self):
        from petsc4py import PETSc

        return PETSc.Vec().createWithArray(self.array, comm=PETSc.COMM_SELF)

    def scatter_forward(self):
        pass

    def scatter_reverse(self, *_a):
        pass

    def set(self, v):
        self.array[:] = v

    def norm(self, *_a):
        return float(np.linalg.norm(self.array))


def create_petsc_vector_wrap(x):
    from petsc4py import PETSc

    return PETSc.Vec().createWithArray(x.array, comm=PETSc.COMM_SELF)


def create_petsc_vector(index_map, bs=1):
    from petsc4py import PETSc

    v = PETSc.Vec().createSeq(int(index_map.size_global) * int(bs), comm=PETSc.COMM_SELF)
    v.set(0.0)
    return v


def vector(index_map, bs=1, dtype=np.float64):
    return Vector(np.zeros(int(index_map.size_global) * int(bs), dtype=dtype))


class ScatterMode:
    add = 0
    insert = 1
