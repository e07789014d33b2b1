"""Driver shared by all property checks: generation, shrinking, counting, replay, evidence.

A property is a list of `Sub` checks.  A sub-check is a Hypothesis strategy that produces a
JSON-able case and a function that runs the real code on the case and judges the outcome;
it returns an `Info` or raises `Violation`.
"""
from __future__ import annotations

import hashlib
import json
import os
import time
import traceback
from dataclasses import dataclass, field
from typing import Any, Callable


class Violation(Exception):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """The machinery could not decide this case (never reported as a violation)."""


@dataclass
class Info:
    nontrivial: bool = True
    labels: list[str] = field(default_factory=list)


@dataclass
class Sub:
    name: str
    strategy: Callable[[], Any]  # () -> hypothesis strategy
    check: Callable[[dict], Info]
    rule: str  # what counts as a non-trivial case
    quick: int = 100
    thorough: int = 1000
    shards_quick: int = 1
    shards_thorough: int = 4
    always: list[dict] = field(default_factory=list)  # hand-picked corner cases, run first


CLEANUPS = []  # called when a worker ends (workers leave with os._exit)


def run_cleanups():
    for f in CLEANUPS:
        f()


@dataclass
class Prop:
    pid: str
    subs: list[Sub]
    assumptions: list[str] = field(default_factory=list)
    # KNOWN-FINDING probes: id -> function returning a description if the finding is present
    level: str = "exploration"


def require(cond, msg):
    if not cond:
        raise Violation(msg if isinstance(msg, str) else msg())


def close(a, b, tol, what, scale=None):
    """|a-b| <= tol * max(scale, |a|, |b|, tiny) elementwise-max; arrays or scalars."""
    import numpy as np

    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Violation(f"{what}: shape {a.shape} != expected {b.shape}")
    if a.size == 0:
        return
    if not np.all(np.isfinite(a)):
        raise Violation(f"{what}: non-finite values")
    s = max(float(np.abs(b).max()), 1e-300) if scale is None else max(float(scale), 1e-300)
    d = float(np.abs(a - b).max())
    if not d <= tol * s:
        i = np.unravel_index(int(np.argmax(np.abs(a - b))), a.shape) if a.ndim else ()
        raise Violation(
            f"{what}: differs by {d:.3e} (scale {s:.3e}, tolerance {tol:.1e}); at {tuple(int(j) for j in i)}:"
            f" got {float(a[i]):.12g}, expected {float(b[i]):.12g}",
        )


def _jsonable(o):
    import numpy as np

    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(type(o))


def dumps(case):
    return json.dumps(case, sort_keys=True, default=_jsonable)


def classify(exc) -> tuple[str, str]:
    """('violation'|'harness', message) for an exception escaping a check."""
    from vh.env import SRC, VERIF

    if isinstance(exc, Violation):
        return "violation", str(exc)
    tb = traceback.extract_tb(exc.__traceback__)
    text = "".join(traceback.format_exception(exc))[-3000:]
    try:
        from dolfinx._engine import StandinUnsupported
    except Exception:  # noqa: BLE001
        StandinUnsupported = HarnessError  # noqa: N806
    if isinstance(exc, (HarnessError, StandinUnsupported, MemoryError)):
        return "harness", text
    in_src = any(f.filename.startswith(str(SRC)) for f in tb)
    if in_src:
        return "violation", f"the code under test raised {type(exc).__name__}: {str(exc)[:300]}\n{text}"
    last = tb[-1].filename if tb else ""
    if isinstance(exc, (AttributeError, ImportError, NameError, AssertionError)) and last.startswith(str(VERIF)):
        return "harness", text
    return "violation", f"result unusable: {type(exc).__name__}: {str(exc)[:300]}\n{text}"


def run_case(sub: Sub, case: dict) -> Info:
    from vh.env import release_ksp, track_ksp

    track_ksp()
    try:
        info = sub.check(json.loads(dumps(case)))
    finally:
        release_ksp()
    return info if info is not None else Info()


def explore(sub: Sub, tier: str, seed: int, shard: int, shards: int) -> dict:
    """Run one shard of a sub-check; returns a JSON-able report."""
    import warnings

    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed
    from hypothesis.errors import HypothesisException
    from hypothesis.internal.conjecture import engine as hengine

    warnings.filterwarnings("ignore")
    if hasattr(hengine, "MAX_SHRINKING_SECONDS"):
        hengine.MAX_SHRINKING_SECONDS = 45 if tier == "quick" else 120
    total = sub.quick if tier == "quick" else sub.thorough
    n = max(1, -(-total // shards))
    rep = {"sub": sub.name, "shard": shard, "evaluations": 0, "hashes": [], "labels": {}, "samples": [],
           "violation": None, "harness": None}
    seen = set()
    last: dict = {}

    deadline = float(os.environ.get("VERIF_DEADLINE", "inf"))  # a slow machine gets fewer cases, not no answer

    def one(case):
        if time.time() > deadline and not last:
            rep["labels"]["not run: out of time"] = rep["labels"].get("not run: out of time", 0) + 1
            return
        rep["evaluations"] += 1
        try:
            info = run_case(sub, case)
        except Exception as e:  # noqa: BLE001
            kind, msg = classify(e)
            last.update(kind=kind, case=json.loads(dumps(case)), msg=msg)
            raise
        if last:
            return
        h = hashlib.sha1(dumps(case).encode()).hexdigest()[:16]
        for lb in info.labels:
            rep["labels"][lb] = rep["labels"].get(lb, 0) + 1
        if info.nontrivial and h not in seen:
            seen.add(h)
            if len(rep["samples"]) < 3 or (len(seen) % 97 == 0 and len(rep["samples"]) < 6):
                rep["samples"].append(json.loads(dumps(case)))

    def finish():
        rep["hashes"] = sorted(seen)
        if last:
            rep["violation" if last["kind"] == "violation" else "harness"] = {
                "case": last["case"], "message": last["msg"],
            }
        return rep

    for c in sub.always[shard::shards]:
        try:
            one(c)
        except Exception:  # noqa: BLE001
            return finish()

    body = given(sub.strategy())(lambda case: one(case))
    body = settings(
        max_examples=n, deadline=None, database=None, print_blob=False, report_multiple_bugs=False,
        phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck),
    )(body)
    body = hseed(seed * 1009 + shard)(body)
    try:
        body()
    except HypothesisException as e:
        if not last:
            last.update(kind="harness", case={}, msg="".join(traceback.format_exception(e))[-3000:])
    except BaseException as e:  # noqa: BLE001
        if not last:
            last.update(kind="harness", case={}, msg="".join(traceback.format_exception(e))[-3000:])
    return finish()


def silence_stdout():
    """Point fd 1 (Python and PETSc/gmsh C output) at /dev/null; returns the saved fd."""
    import sys

    sys.stdout.flush()
    saved = os.dup(1)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.close(dn)
    return saved
