"""Helpers of the demonstrations: a small space-time problem on the substitute for DOLFINx that lies beside this file."""
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(here, "standin"), os.path.join(os.getcwd(), "src")]
import numpy as np
import scipy.sparse as sp
import ufl
from dolfinx import mesh as dm
from mpi4py import MPI
from petsc4py import PETSc

from dxss import space_time as stm

STABS = {"data": 100.0, "dual": 1.0, "primal": 1e-2, "primal-jump": 1.0}


def ends(x):
    return ((x[0] <= 0.25) | (x[0] >= 0.75)).astype(float)


def u(t, x):
    return ufl.cos(np.pi * t) * ufl.sin(np.pi * x[0])


def ut(t, x):
    return -np.pi * ufl.sin(np.pi * t) * ufl.sin(np.pi * x[0])


def make(q=1, qs=1, k=1, ks=1, N=2, T=1.0, nx=4, wp=False, jumps=False, sol=(u, ut), omega=None, stabs=None, dim=1):
    msh = dm.create_unit_interval(MPI.COMM_SELF, nx) if dim == 1 else dm.create_unit_square(MPI.COMM_SELF, nx, nx)
    o = stm.SpaceTime(
        stm.OrderTime(q, qs), stm.OrderSpace(k, ks), N=N, T=T, t=0.0, msh=msh, stabilisation_terms=dict(stabs or STABS),
        omega=omega or stm.DataDomain(indicator_function=ends, fitted=True), solution=stm.ValueAndDerivative(*sol),
        parameters=stm.ProblemParameters(well_posed=wp, jumps_in_fw_problem=jumps))
    o.setup_spacetime_finite_elements()
    return o


def csr(mat):
    ai, aj, av = mat.getValuesCSR()
    return sp.csr_matrix((av, aj, ai), shape=mat.getSize())


def vec(a):
    v = PETSc.Vec().createSeq(len(a))
    v.array[:] = a
    return v


def lu(mat):
    ksp = PETSc.KSP().create(PETSc.COMM_SELF)
    ksp.setOperators(mat)
    ksp.setType("preonly")
    ksp.getPC().setType("lu")
    return ksp


def with_solvers(o):
    o.prepare_precondition_gmres()
    o.set_solver_slab(lu(o.get_slab_matrix()))
    o.set_solver_first_slab(lu(o.get_slab_matrix_first_slab()))
    return o


def rnd(o, seed=0):
    return np.random.default_rng(seed).standard_normal(o.fes.dofmap.index_map.size_global if hasattr(o.fes, "dofmap") else o.uh.x.array.size)


def need(ok, msg):
    sys.stdout.flush()
    if not ok:
        sys.exit(f"FAILED: {msg}")
