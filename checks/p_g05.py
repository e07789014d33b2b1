"""G05: the Krylov solver on distributed systems (real MPI processes), in any distribution and on any communicator."""
import json
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from vh import gm
from vh.core import CLEANUPS, HarnessError, Info, Prop, Sub, require

PROCS = 4
WAIT = 45  # seconds; a case takes some 20 ms
START = 150
WORKER = Path(gm.__file__).with_name("mpi_worker.py")


class Team:
    """Four MPI processes that solve the systems they are sent."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="dxss-mpi-", dir="/tmp")
        pin, pout = self.dir + "/in", self.dir + "/out"
        os.mkfifo(pin)
        os.mkfifo(pout)
        env = {k: v for k, v in os.environ.items() if not k.startswith(("OMPI_", "PMIX_", "ORTE_", "OPAL_", "PMI_"))}
        env.update(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMP_NUM_THREADS="1", TMPDIR=self.dir)
        exe = shutil.which("mpirun") or "/usr/bin/mpirun"
        self.err = open(self.dir + "/err", "w+")  # noqa: SIM115
        try:
            self.p = subprocess.Popen(
                [exe, "--oversubscribe", "--bind-to", "none", "-n", str(PROCS), "--mca", "btl", "self,vader",
                 "--mca", "btl_vader_single_copy_mechanism", "none", "--mca", "mpi_yield_when_idle", "1",
                 "--mca", "orte_tmpdir_base", self.dir, sys.executable, "-B", str(WORKER), pin, pout],
                stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=self.err, env=env, start_new_session=True, cwd=self.dir)
        except OSError as e:
            raise HarnessError(f"mpirun cannot be started: {e}") from e
        self.fout = os.open(pout, os.O_RDONLY | os.O_NONBLOCK)
        self.fin = os.open(pin, os.O_RDWR)  # does not block
        self.buf = b""
        first = self.line(START)
        if first is None or json.loads(first).get("procs") != PROCS:
            msg = f"the MPI processes did not start: {self.errors()}"
            self.stop()
            raise HarnessError(msg)

    def errors(self):
        self.err.flush()
        return Path(self.dir, "err").read_text(errors="replace")[-1500:]

    def line(self, wait):
        end = time.time() + wait
        while b"\n" not in self.buf:
            if time.time() > end:
                return None
            ready, _, _ = select.select([self.fout], [], [], 1.0)
            part = b""
            if ready:
                try:
                    part = os.read(self.fout, 65536)
                except BlockingIOError:
                    part = b""
                self.buf += part
            if not part:
                if self.p.poll() is not None:
                    return None
                time.sleep(0.01)
        ln, self.buf = self.buf.split(b"\n", 1)
        return ln

    def ask(self, case):
        data = (json.dumps(case) + "\n").encode()
        while data:
            data = data[os.write(self.fin, data):]
        ln = self.line(WAIT if not _HUNG else 10)
        return None if ln is None else json.loads(ln)

    def stop(self):
        try:
            os.killpg(self.p.pid, signal.SIGTERM)
            try:
                self.p.wait(5)
            except subprocess.TimeoutExpired:
                pass
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()
        for fd in (self.fin, self.fout):
            os.close(fd)
        self.err.close()
        shutil.rmtree(self.dir, ignore_errors=True)


_TEAM = []
_HUNG = []  # cases that did not finish


def team():
    if not _TEAM:
        _TEAM.append(Team())
        CLEANUPS.append(stop)
    return _TEAM[0]


def stop():
    while _TEAM:
        _TEAM.pop().stop()


def ask(case):
    for again in (True,) if _HUNG else (False, True):
        t = team()
        res = t.ask(case)
        if res is not None:
            return res
        err, code = t.errors(), t.p.poll()
        stop()
        if again:
            _HUNG.append(case)
            require(False, f"the distributed solve did not finish (exit code {code}): {err}")
    return None


def local_sizes(n, weights):
    """n unknowns over len(weights) processes, in proportion to the weights (zero allowed); sums to n."""
    w = np.array(weights, float)
    if w.sum() == 0:
        w[:] = 1
    cum = np.round(np.cumsum(w) / w.sum() * n).astype(int)
    return np.diff(np.concatenate([[0], cum])).tolist()


def check(c):
    groups, left = [], PROCS
    for i, g in enumerate(c["groups"]):
        p = min(g["procs"], left) if i < len(c["groups"]) - 1 else left
        if p <= 0:
            break
        left -= p
        n = g["sys"]["n"]
        if g["layout"] is None:  # PETSc's own distribution
            sizes = [n // p + (1 if r < n % p else 0) for r in range(p)]
        else:
            sizes = local_sizes(n, g["layout"][:p])
        groups.append({"procs": p, "sys": g["sys"], "sizes": sizes, "seq": g["seq"]})
    if left:
        groups[-1]["procs"] += left
        groups[-1]["sizes"] += [0] * left
    res = ask({"groups": groups})
    labels, non = [], False
    for i, g in enumerate(groups):
        rs = sorted((r for r in res if r["group"] == i), key=lambda r: r["rank"])
        what = f"system {i} of {len(groups)}, {g['sys']['n']} unknowns distributed as {g['sizes']} over {g['procs']} of {PROCS} processes"
        for r in rs:
            require(r["trace"] is None, lambda: f"{what}: {r['trace']}")  # noqa: B023
        out = gm.Result()
        out.A, out.P, out.b = gm.system(g["sys"])
        require(len({r["raised"] is None for r in rs}) == 1, f"{what}: some processes raise, others return")
        require(len({tuple(r["calls"]) for r in rs}) == 1, f"{what}: operator calls differ between processes")
        b = np.concatenate([r["b"] for r in rs])
        require(np.array_equal(b, out.b), f"{what}: the right-hand side was changed")
        a = gm.analyse(g["sys"], out.A, out.P, out.b)
        out.raised = rs[0]["raised"] if rs[0]["raised"] is not None else None
        if out.raised is None:
            for r in rs:
                require(r["xs"] == len(b) and r["rs"] == len(b), f"{what}: results of global size {r['xs']}, {r['rs']}")
                require(r["xr"] == r["own"] and r["rr"] == r["own"], f"{what}: process {r['rank']} owns {r['own']} of the right-hand side but {r['xr']} of the solution and {r['rr']} of the residual")
                require(r["procs"] == [g["procs"]] * 2 , f"{what}: the results live on {r['procs']} processes")
            out.x, out.r = (np.concatenate([r[k] for r in rs]) for k in "xr")
            gm.judge_returned(g["sys"], out, a)
        try:
            v = gm.judge_decision(g["sys"], out, a)
        except Exception as e:
            e.args = (f"{what}: {e}" + (f" (PETSc error {out.raised})" if out.raised else ""),)
            raise
        lab = v if isinstance(v, str) else v[0]
        uneven = g["sizes"] != [g["sys"]["n"] // g["procs"] + (1 if r < g["sys"]["n"] % g["procs"] else 0) for r in range(g["procs"])]
        labels += [lab, f"procs={g['procs']}", "uneven" if uneven else "even"] + (["empty part"] if 0 in g["sizes"] else [])
        non |= g["procs"] > 1 and lab in ("must-converge", "must-fail")
    return Info(non, [*labels, f"groups={len(groups)}"])


@st.composite
def cases(draw):
    groups = []
    for _i in range(draw(st.sampled_from([1, 1, 1, 2, 2, 3, 4]))):
        s = draw(gm.cases(nmax=20))
        s["print"] = draw(st.booleans())
        groups.append({"procs": draw(st.integers(1, 3)), "sys": s, "seq": draw(st.booleans()),
                       "layout": draw(st.one_of(st.none(), st.lists(st.integers(0, 4), min_size=PROCS, max_size=PROCS)))})
    return {"groups": groups}


def _always():
    base = dict(n=13, kind="dominant", mseed=3, ascale=1.0, pre="diag", pscale=1.0, rhs="random", bscale=1.0,
                tol=None, reltol=None, restart=None, maxsteps=None, explicit_none=False, print=True)
    one = {"procs": 1, "sys": base, "seq": False, "layout": None}
    out = [{"groups": [{**one, "layout": w}]} for w in ([1, 0, 0, 0], None, [0, 1, 2, 1], [3, 1, 1, 0], [0, 0, 0, 1])]
    out += [{"groups": [{**one, "procs": p, "seq": s}, {**one, "sys": {**base, "n": 5, "maxsteps": 2}}]} for p in (1, 2, 3) for s in (False, True)]
    out += [{"groups": [{**one, "seq": True, "sys": {**base, "n": 3 + i}} for i in range(4)]},
            {"groups": [{**one, "sys": {**base, "restart": 2, "kind": "nonnormal"}, "layout": [1, 2, 3, 4]}]},
            {"groups": [{**one, "sys": {**base, "maxsteps": 2}, "layout": [4, 2, 1, 0]}]}]
    return out


PROP = Prop("G05", [
    Sub("distributed", cases, check, "a system on more than one process that must converge or must fail within its budget",
        quick=240, thorough=6000, shards_quick=2, shards_thorough=2, always=_always()),
], assumptions=["Open MPI, four processes on one machine, groups of one to four of them",
                "the callbacks gather the vector and apply a dense matrix"])
