"""Runs on every process of an mpirun: solves distributed systems sent by the check, and returns the outcome.

argv: input pipe, output pipe (both used by the first process only).
"""
import json
import os
import sys
import traceback
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parents[1]))
from vh import env  # noqa: E402

env.setup()

import numpy as np  # noqa: E402


class Mat:
    def __init__(self, comm, A):
        self.comm, self.A, self.calls = comm, A, 0

    def mult(self, mat, x, y):  # noqa: ARG002
        self.calls += 1
        full = np.concatenate(self.comm.allgather(np.array(x.array)))
        a, b = y.getOwnershipRange()
        y.array[:] = self.A[a:b] @ full


class Pre:
    def __init__(self, comm, P):
        self.comm, self.P, self.calls = comm, P, 0

    def apply(self, pc, x, y):  # noqa: ARG002
        self.calls += 1
        full = np.concatenate(self.comm.allgather(np.array(x.array)))
        a, b = y.getOwnershipRange()
        y.array[:] = self.P[a:b] @ full


def solve(case, world):
    from petsc4py import PETSc

    from dxss.gmres import get_gmres_solution

    from vh import gm

    color, base = 0, 0
    for color, g in enumerate(case["groups"]):  # noqa: B007
        if world.rank < base + g["procs"]:
            break
        base += g["procs"]
    comm = world if len(case["groups"]) == 1 else world.Split(color, world.rank)
    c = g["sys"]
    A, P, b = gm.system(c)
    sizes = g["sizes"]
    if g["seq"] and comm.size == 1:
        vb = PETSc.Vec().createSeq(len(b))
    else:
        vb = PETSc.Vec().createMPI((sizes[comm.rank], len(b)), comm=comm)
    lo, hi = vb.getOwnershipRange()
    vb.array[:] = b[lo:hi]
    out = {"group": color, "rank": comm.rank, "raised": None, "trace": None}
    mat, pre = Mat(comm, A), Pre(comm, P)
    env.track_ksp()
    try:
        x, r = get_gmres_solution(mat, vb, pre, **gm.kwargs_of(c))
        out.update(x=np.array(x.array).tolist(), r=np.array(r.array).tolist(), xr=list(x.getOwnershipRange()), rr=list(r.getOwnershipRange()),
                   xs=x.getSize(), rs=r.getSize(), procs=[x.getComm().getSize(), r.getComm().getSize()])
    except PETSc.Error as e:
        out["raised"] = int(e.ierr or 0)
    except Exception as e:  # noqa: BLE001
        out["trace"] = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-2000:]
    env.release_ksp()
    out.update(own=[lo, hi], b=np.array(vb.array).tolist(), calls=[mat.calls, pre.calls])
    return out


def main():
    from mpi4py import MPI

    world = MPI.COMM_WORLD
    fin = fout = None
    if world.rank == 0:
        fin = open(sys.argv[1])  # noqa: SIM115
        fout = open(sys.argv[2], "w")  # noqa: SIM115
        fout.write(json.dumps({"procs": world.size}) + "\n")
        fout.flush()
    while True:
        line = world.bcast(fin.readline() if world.rank == 0 else None)
        if not line.strip():
            break
        res = world.gather(solve(json.loads(line), world))
        if world.rank == 0:
            fout.write(json.dumps(res) + "\n")
            fout.flush()
    world.Barrier()
    os._exit(0)


main()
