"""M04: sequences of generator calls; gmsh is finalised; nothing is left behind."""
import os
import shutil
import tempfile

from hypothesis import strategies as st

from vh import mm
from vh.core import Info, Prop, Sub, require


def in_clean_dir(f):
    here = os.getcwd()
    d = tempfile.mkdtemp(prefix="dxss-m04-")
    try:
        os.chdir(d)
        return f()
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


def check(c):
    m = mm.module()
    calls = [dict(x, n=min(x["n"], 1), api=False) for x in c["calls"]]
    names = {k: v for k, v in vars(m).items() if isinstance(v, (int, float, str, tuple, list, dict)) and not k.startswith("__")}
    before = {k: repr(v) for k, v in names.items()}

    def history():
        out = []
        for i, x in enumerate(calls):
            if c["user_gmsh"] and i:
                import gmsh

                gmsh.initialize()
                gmsh.option.setNumber("Mesh.MeshSizeFactor", 0.3)
                gmsh.model.add("users")
                gmsh.model.occ.addRectangle(5, 5, 0, 1, 1)
                gmsh.model.occ.synchronize()
                gmsh.finalize()
            meshes, d, left = mm.generate(m, x)
            require(not left, f"{x['gen']}{d}: gmsh is still initialised after the call")
            out.append((x, d, meshes, [mm.canon(s) for s in meshes]))
        return out

    seq = in_clean_dir(history)
    for x, d, meshes, snap in seq:
        alone = in_clean_dir(lambda: mm.generate(mm.module(), x)[0])  # noqa: B023
        what = f"{x['gen']}{d} after {len(calls) - 1} other calls"
        require(len(alone) == len(meshes), f"{what}: {len(meshes)} meshes, alone {len(alone)}")
        for j, (a, b) in enumerate(zip(meshes, alone)):
            mm.same_mesh(a, b, f"{what}, mesh {j}")
            now = mm.canon(a)
            require(now.shape == snap[j].shape and bool((now == snap[j]).all()), f"{what}: mesh {j} was changed by a later call")
    after = {k: repr(vars(m).get(k)) for k in before}
    require(after == before, f"module-level settings changed: { {k: (before[k], after[k]) for k in before if before[k] != after[k]} }")
    return Info(len(calls) >= 2, sorted({x["gen"] for x in calls}))


def cases():
    return st.fixed_dictionaries({"calls": st.lists(mm.cases(smin=18, nmax=1), min_size=2, max_size=4), "user_gmsh": st.booleans()})


def _c(g, **k):
    return dict({"gen": g, "s": 30, "n": 1, "order": 1, "eta": 20, "box": [3, 12, 6, 11], "api": False}, **k)


PROP = Prop("M04", [
    Sub("sequences", cases, check, "at least two calls", quick=192, thorough=2304, shards_quick=8, shards_thorough=8,
        always=[{"calls": [_c(a, s=50), _c(b)], "user_gmsh": u} for a, b, u in
                (("cube", "cube", False), ("disc", "disc", True), ("inclusion", "inclusion", False), ("bottom", "inclusion", True),
                 ("square", "bottom", False), ("around", "hierarchy", False), ("convex", "nonconvex", False))]
        + [{"calls": [_c("around", s=50), _c(g, s=20)], "user_gmsh": False} for g in sorted(mm.FAM)]
        + [{"calls": [_c("disc", eta=50), _c("disc"), _c("disc", eta=5), _c("bottom", eta=50), _c("bottom", eta=5)], "user_gmsh": False}]),
], assumptions=["gmsh is real; DOLFINx mesh creation, XDMF reading and refinement are the stand-in's"])
