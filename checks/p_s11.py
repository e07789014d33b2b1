"""S11: problems are isolated from each other and leave the caller's configuration alone."""
import copy
import dataclasses

import numpy as np
from hypothesis import strategies as st

from vh import poly, stx
from vh.core import Info, Prop, Sub, require
from p_s01 import compare, labels


def snapshot(o):
    return {f.name: getattr(o, f.name) for f in dataclasses.fields(o)}


def same(a, b):
    return set(a) == set(b) and all(a[k] is b[k] or a[k] == b[k] for k in a)


def check(h):
    import ufl
    from dolfinx import fem

    from dxss import space_time as stm

    stx._memo_elmat()
    from dolfinx import _engine as E

    cfg, probs = h["shared"], h["problems"]
    built = []
    rng = np.random.default_rng(h["vseed"])
    gdim = stx.KINDS[cfg["mesh"]["kind"]]
    cut = cfg["mesh"]["lo"] + 0.5 * cfg["mesh"]["len"][0]
    # one data domain, one parameter object, one dictionary, one solution, shared by all problems
    fn = lambda x: np.where(x[0] <= cut, 1.0, 0.0)  # noqa: E731
    shared_fn = stm.DataDomain(indicator_function=fn, fitted=True)
    gammas = dict(cfg["g"])
    u = poly.general(gdim, cfg["sol"], 2, 2)
    ut = u.dt()
    sol = stm.ValueAndDerivative(lambda t, x: u(t, x), lambda t, x: ut(t, x))
    par = stm.ProblemParameters(jumps_in_fw_problem=cfg["jumps"], well_posed=cfg["wp"])
    default_before = stm.ProblemParameters()
    watch = [(shared_fn, snapshot(shared_fn)), (sol, snapshot(sol)), (par, snapshot(par))]
    g0 = copy.deepcopy(gammas)
    for p in probs:
        c = {**cfg, "mesh": p["mesh"], "N": p["N"], "T": p["T"], "q": p["q"], "qs": p["qs"], "dof_seed": p["dof_seed"]}
        E.config.dof_seed = c["dof_seed"]
        mesh = stx.build_mesh(c["mesh"])
        S = stx.ref.Space(mesh)
        if p["omega"] == "shared":
            om = shared_fn
        else:
            V = fem.FunctionSpace(mesh, ("DG", 0))
            f = fem.Function(V)
            f.interpolate(fn)
            om = stm.DataDomain(indicator_function=f, fitted=False) if p["omega"] == "function" else \
                stm.DataDomain(indicator_function=ufl.conditional(ufl.SpatialCoordinate(mesh)[0] <= cut, 1, 0), fitted=False)
            watch.append((om, snapshot(om)))
        ot, os_ = stm.OrderTime(c["q"], c["qs"]), stm.OrderSpace(c["k"], c["ks"])
        watch += [(ot, snapshot(ot)), (os_, snapshot(os_))]
        kw = {}
        if p["params"] == "shared":
            kw["parameters"] = par
        else:
            c["jumps"] = c["wp"] = False  # the documented defaults
            if p["params"] == "explicit-default":
                kw["parameters"] = stm.ProblemParameters()
        B = stx.Built()
        B.c, B.mesh, B.S = c, mesh, S
        mid = S.midpoints()[:, 0]
        B.ok = bool((np.abs(mid - cut) > 1e-9).all())
        B.val = (mid <= cut).astype(float)
        if p["omega"] == "conditional":  # pointwise: must be aligned with the cells to be comparable
            xs = S.xv[:, :, 0]
            B.ok = bool(((xs <= cut + 1e-12).all(1) | (xs >= cut - 1e-12).all(1)).all())
        B.st = stm.SpaceTime(ot, os_, N=c["N"], T=c["T"], t=0.0, msh=mesh, stabilisation_terms=gammas, omega=om, solution=sol, **kw)
        B.L = stx.ref.Layout(S, c["q"], c["qs"], c["k"], c["ks"], c["N"])
        B.L1 = stx.ref.Layout(S, c["q"], c["qs"], c["k"], c["ks"], 1)
        built.append(B)
        if p["eager"]:
            B.st.setup_spacetime_finite_elements()
            B.ready = True
        else:
            B.ready = False
    for i in rng.permutation(len(built)):
        B = built[i]
        if not B.ready:
            B.st.setup_spacetime_finite_elements()
            B.ready = True
        E.config.dof_seed = B.c["dof_seed"]
        A = stx.csr(B.st.get_spacetime_matrix())
        b = np.array(B.st.get_spacetime_rhs().array)
        require(b.shape[0] == A.shape[0], "right-hand side and matrix do not match")
        B.st.prepare_precondition_gmres()
        v = stx.vec(rng.standard_normal(B.L.n))
        B.st.apply_spacetime_matrix(v, stx.vec(B.L.n))
        B.A = A
    for i, B in enumerate(built):
        if B.ok:
            A = stx.to_ref(B, B.A)
            compare(B, A, stx.form(B).total(), f"problem {i} of {len(built)} sharing its configuration objects: space-time matrix")
    for o, before in watch:
        require(same(snapshot(o), before), f"the caller's {type(o).__name__} object was modified")
    require(gammas == g0, "the caller's stabilisation parameters were modified")
    require(same(snapshot(stm.ProblemParameters()), snapshot(default_before)), "the default parameters changed")
    require(tuple(stm.ProblemParameters()) == (False, False), "the default parameters are not (False, False)")
    require(tuple(par) == (cfg["jumps"], cfg["wp"]), "problem parameters unpack in the wrong order")
    lab = [f"problems:{len(built)}", *sorted({p["omega"] for p in probs}), *sorted({"params-" + p["params"] for p in probs})]
    return Info(len(built) > 1 and sum(B.ok for B in built) > 1, lab)


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["interval", "interval", "triangle", "quadrilateral"]))
    c = draw(stx.cfgs(kinds=[kind], maxN=6, kmax=2, budget=250))
    c["sol"] = draw(poly.coefs(maxterms=2))
    probs = []
    for _ in range(draw(st.integers(2, 3))):
        m = copy.deepcopy(c["mesh"])
        m["n"] = [draw(st.integers(1, 4 if kind == "interval" else 2)) for _ in m["n"]]
        m["jitter"] = draw(st.sampled_from([0.0, 0.0, 0.2]))
        m["seed"] = draw(st.integers(0, 999))
        probs.append({"mesh": m, "N": draw(st.integers(1, 3)), "T": draw(st.sampled_from([1.0, 0.5])), "q": draw(st.integers(0, 2)),
                      "qs": draw(st.integers(0, 1)), "dof_seed": draw(st.integers(0, 9)), "eager": draw(st.booleans()),
                      "omega": draw(st.sampled_from(["shared", "shared", "function", "conditional"])),
                      "params": draw(st.sampled_from(["shared", "default", "explicit-default"]))})
    return {"shared": c, "problems": probs, "vseed": draw(st.integers(0, 999))}


PROP = Prop("S11", [
    Sub("isolation", cases, check, "at least two problems sharing configuration objects whose data domain is cell-wise constant",
        quick=360, thorough=4320, shards_quick=8, shards_thorough=8),
], assumptions=["stand-in for DOLFINx (lib/standin)"])
