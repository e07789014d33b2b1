"""run.py PID (--tier quick|thorough | --replay FILE)

Exit 0: property held on everything explored; 1: VIOLATION line printed; 3: no answer.
"""
import argparse
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parents[1]
sys.path.insert(0, str(VERIF / "lib"))
sys.path.insert(0, str(VERIF / "checks"))
from vh import core, env  # noqa: E402

env.setup()


def prop_of(pid):
    return importlib.import_module(f"p_{pid.lower()}").PROP


def known_findings(pid):
    out = []
    f = VERIF / "KNOWN_FINDINGS.txt"
    if f.is_file():
        for ln in f.read_text().splitlines():
            if ln.startswith("finding:") and f"property={pid} " in ln:
                out.append(ln[len("finding:"):].strip())
    return out


def worker(a):
    prop = prop_of(a.pid)
    sub = next(s for s in prop.subs if s.name == a.sub)
    with tempfile.TemporaryDirectory(prefix="dxss-verif-") as d:
        os.chdir(d)
        core.silence_stdout()
        try:
            rep = core.explore(sub, a.tier, a.seed, a.shard, a.shards)
        finally:
            os.chdir("/")
    Path(a.out).write_text(json.dumps(rep))
    sys.stderr.flush()
    core.run_cleanups()
    os._exit(0)


def replay(a):
    doc = json.loads(Path(a.replay).read_text())
    prop = prop_of(doc["property"])
    sub = next(s for s in prop.subs if s.name == doc["sub"])
    with tempfile.TemporaryDirectory(prefix="dxss-verif-") as d:
        os.chdir(d)
        saved = core.silence_stdout()
        code, msg = 0, "case passes"
        try:
            core.run_case(sub, doc["case"])
        except Exception as e:  # noqa: BLE001
            kind, msg = core.classify(e)
            code = 1 if kind == "violation" else 3
        sys.stdout.flush()
        os.dup2(saved, 1)
        os.chdir("/")
    print(msg)
    if code == 1:
        print(f"VIOLATION property={doc['property']} replay={a.replay}")
    sys.stdout.flush()
    core.run_cleanups()
    os._exit(code)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=("quick", "thorough"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--shards", type=int, default=1)
    ap.add_argument("--out")
    ap.add_argument("--jobs", type=int, default=0)
    a = ap.parse_args()
    if a.out:
        worker(a)
    if a.replay:
        replay(a)
    t0 = time.time()
    prop = prop_of(a.pid)
    subs = [s for s in prop.subs if not a.sub or s.name == a.sub]
    # petsc4py never frees a KSP with Python contexts, so long explorations are cut into many short-lived processes
    jobs = [(s, i, n) for s in subs
            for n in [s.shards_quick if a.tier == "quick" else max(s.shards_thorough, min(64, -(-s.thorough // 100)))] for i in range(n)]
    reps = []
    limit = {"VERIF_DEADLINE": str(t0 + 600)} if a.tier == "quick" else {}
    with tempfile.TemporaryDirectory(prefix="dxss-verif-out-") as outd:

        def go(j):
            s, i, n = jobs[j]
            out = Path(outd) / f"{j}.json"
            cmd = [sys.executable, "-B", __file__, a.pid, "--tier", a.tier, "--seed", str(a.seed), "--sub", s.name,
                   "--shard", str(i), "--shards", str(n), "--out", str(out)]
            p = subprocess.run(cmd, env={**os.environ, "VERIF_SHARED": outd, **limit}, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
            if out.is_file():
                return json.loads(out.read_text())
            return {"sub": s.name, "shard": i, "evaluations": 0, "hashes": [], "labels": {}, "samples": [],
                    "violation": None, "harness": {"case": {}, "message": f"worker died ({p.returncode}): {p.stderr[-3000:]}"}}

        with ThreadPoolExecutor(a.jobs or min(8, os.cpu_count() or 1)) as ex:
            reps = list(ex.map(go, range(len(jobs))))

    nviol, nharn = 0, 0
    reported = set()
    for r in reps:
        if r["violation"] and r["sub"] not in reported:
            reported.add(r["sub"])
            nviol += 1
            d = VERIF / "replays"
            d.mkdir(exist_ok=True)
            f = d / f"{a.pid}-{r['sub']}.json"
            f.write_text(json.dumps({"property": a.pid, "sub": r["sub"], "case": r["violation"]["case"],
                                     "message": r["violation"]["message"]}, indent=1))
            print(f"[{a.pid}/{r['sub']}] {r['violation']['message'][:1500]}")
            print(f"VIOLATION property={a.pid} replay={f}")
        if r["harness"]:
            nharn += 1
            print(f"[{a.pid}/{r['sub']}] no answer: {r['harness']['message'][-1500:]}", file=sys.stderr)
    for ln in known_findings(a.pid):
        print(f"KNOWN-FINDING: {ln}")
    by = {}
    for r in reps:
        e = by.setdefault(r["sub"], {"evaluations": 0, "h": set(), "labels": {}, "samples": []})
        e["evaluations"] += r["evaluations"]
        e["h"] |= set(r["hashes"])
        e["samples"] += r["samples"]
        for k, v in r["labels"].items():
            e["labels"][k] = e["labels"].get(k, 0) + v
    samples = []
    for s in subs:
        for c in by[s.name]["samples"][:2]:
            samples.append({"check": s.name, "case": c})
    ev = {
        "property": a.pid, "tier": a.tier, "seed": a.seed, "level": prop.level,
        "coverage": {
            "evaluations": sum(e["evaluations"] for e in by.values()),
            "distinct_nontrivial": sum(len(e["h"]) for e in by.values()),
            "rule": "; ".join(f"{s.name}: {s.rule}" for s in subs),
            "samples": samples[:12],
            "per_check": {k: {"evaluations": e["evaluations"], "distinct_nontrivial": len(e["h"]), "labels": e["labels"]}
                          for k, e in by.items()},
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
        "assumptions": prop.assumptions,
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{a.pid}.json").write_text(json.dumps(ev, indent=1))
    c = ev["coverage"]
    print(f"{a.pid} {a.tier} seed={a.seed}: {c['evaluations']} cases, {c['distinct_nontrivial']} distinct non-trivial, "
          f"{nviol} violation(s), {ev['wall_s']} s")
    for k, e in c["per_check"].items():
        print(f"   {k}: {e['evaluations']} / {e['distinct_nontrivial']} {e['labels']}")
    sys.exit(1 if nviol else (3 if nharn else 0))


if __name__ == "__main__":
    main()
