"""Writes /verif/seeded/<id>/ from the definitions in tools/seeds: python3 tools/mkseeds.py [ID...].

Verifies in a scratch worktree that the patch applies, the stable tests pass with it, and the demonstration tells the
trees apart.  By hand only; no check reads its output.
"""
import importlib
import json
import shutil
import subprocess
import sys
from pathlib import Path

V = Path(__file__).resolve().parents[1]
sys.path.insert(0, str(V / "tools" / "seeds"))
bugs = [b for f in sorted((V / "tools" / "seeds").glob("defs_*.py")) for b in importlib.import_module(f.stem).BUGS]
W = Path("/tmp/seedwork")
stable = {t for t in json.loads(Path("/opt/vp/BASELINE.json").read_text())["stable"]}


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


for b in bugs:
    if sys.argv[1:] and b["id"] not in sys.argv[1:]:
        continue
    if W.exists():
        shutil.rmtree(W)
    shutil.copytree("/repo", W, symlinks=True)
    for f, old, new in b["edits"]:
        p = W / f
        s = p.read_text()
        assert s.count(old) == 1, (b["id"], f, s.count(old), old[:200])
        p.write_text(s.replace(old, new))
    out = V / "seeded" / b["id"]
    if out.exists():
        shutil.rmtree(out)
    out.mkdir(parents=True)
    (out / "patch.diff").write_text(sh("git", "-C", str(W), "diff").stdout)
    (out / "meta.json").write_text(json.dumps({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
    (out / "demo.py").write_text(b["demo"])
    (out / "demo.sh").write_text('''#!/bin/bash
export PETSC_DIR=/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
unset PETSC_OPTIONS PYTHONPATH
exec /opt/venv/bin/python -B "$(dirname "$(readlink -f "$0")")/demo.py"
''')
    (out / "demo.sh").chmod(0o755)
    if b.get("standin"):
        shutil.copytree(V / "lib" / "standin", out / "standin", ignore=shutil.ignore_patterns("__pycache__"))
        if "st_common" in b["demo"]:
            shutil.copy(V / "tools" / "seeds" / "st_common.py", out)
    good = sh(str(out / "demo.sh"), cwd="/repo")
    bad = sh(str(out / "demo.sh"), cwd=W)
    t = sh("bash", "-c", "PETSC_DIR=/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real PYTHONPATH=/tmp/seedwork/src /opt/venv/bin/python -B -m pytest -q -p no:cacheprovider tests/test_gmres.py tests/test_dxss.py 2>&1 | tail -3", cwd=W)
    print(b["id"], "clean:", good.returncode, "patched:", bad.returncode, "| tests:", t.stdout.strip().splitlines()[-1:], flush=True)
    if good.returncode:
        print("   CLEAN FAILS:", (good.stderr + good.stdout)[-600:])
    print("   ", bad.stderr.strip()[-200:])
shutil.rmtree(W, ignore_errors=True)
