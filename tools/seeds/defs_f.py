"""Planted bugs: distributed vectors."""
from defs_a import G

MP = '''import os, shutil, subprocess, sys, tempfile
N = 4
if sys.argv[1:] != ["work"]:
    env = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1")
    with tempfile.TemporaryDirectory(dir="/tmp") as tmp:
        env["TMPDIR"] = tmp
        p = subprocess.Popen(["mpirun", "--oversubscribe", "--bind-to", "none", "-n", str(N), "--mca", "btl", "self,vader",
                              "--mca", "btl_vader_single_copy_mechanism", "none", "--mca", "orte_tmpdir_base", tmp,
                              sys.executable, "-B", os.path.abspath(__file__), "work"], env=env, stdin=subprocess.DEVNULL)
        try:
            code = p.wait(90)
        except subprocess.TimeoutExpired:
            p.terminate()
            p.wait()
            sys.exit("FAILED: the processes wait for each other")
    sys.exit(1 if code else 0)

sys.path.insert(0, os.path.join(os.getcwd(), "src"))
import numpy as np
import petsc4py
petsc4py.init([sys.argv[0]])
from petsc4py import PETSc
from mpi4py import MPI
from dxss.gmres import get_gmres_solution

world = MPI.COMM_WORLD


class Op:
    def __init__(self, comm, a):
        self.comm, self.a = comm, a

    def mult(self, mat, x, y):
        lo, hi = y.getOwnershipRange()
        y.array[:] = self.a[lo:hi] @ np.concatenate(self.comm.allgather(np.array(x.array)))


class Pre:
    def apply(self, pc, x, y):
        x.copy(y)


def solve(comm, sizes, **kw):
    n = sum(sizes)
    a = 4 * np.eye(n) + np.diag(np.ones(n - 1), 1) - np.diag(np.arange(n - 1) / n, -1)
    b = PETSc.Vec().createMPI((sizes[comm.rank], n), comm=comm)
    lo, hi = b.getOwnershipRange()
    b.array[:] = np.cos(np.arange(lo, hi))
    x, r = get_gmres_solution(Op(comm, a), b, Pre(), printrates=False, **kw)
    full = np.concatenate(comm.allgather(np.array(x.array)))
    need(len(x.array) == hi - lo, "the solution is distributed differently")
    need(np.abs(a @ full - np.cos(np.arange(n))).max() < 1e-5, "the solution is wrong")


def need(ok, msg):
    if not ok:
        raise AssertionError(msg)


def main(f):
    sys.excepthook = lambda t, v, tb: (print(f"FAILED on process {world.rank}: {t.__name__} {v}", file=sys.stderr, flush=True), world.Abort(1))
    f()
    world.Barrier()


'''
BUGS = [
    dict(id="g05-even-solution", prop="G05", edits=[(G, "    x = A_shell.createVecRight()  # sol vec conforming to matrix partitioning\n",
                                                    "    x = PETSc.Vec().createMPI(b.getSize(), comm=A_shell.getComm())\n")],
         needs="a right-hand side whose parts are not those PETSc would choose", breaks="the solution is distributed differently from the right-hand side, and the solve fails",
         demo=MP + '''def f():
    solve(world, [5, 4, 4, 4])
    solve(world, [0, 9, 1, 7])


main(f)
'''),
    dict(id="g05-root-raises", prop="G05", edits=[(G, "    if ksp_reason < 0:\n", "    if ksp_reason < 0 and not A_shell.getComm().getRank():\n")],
         needs="a solve that misses its tolerance within the step budget, on several processes",
         breaks="only the first process raises: the others return an unconverged vector as the solution, or wait for the first one",
         demo=MP + '''def f():
    solve(world, [5, 4, 4, 4])
    raised = False
    try:
        solve(world, [5, 4, 4, 4], maxsteps=2)
    except PETSc.Error:
        raised = True
    need(raised, "a vector that misses the tolerance is returned")


main(f)
'''),
]
