"""Planted bugs: third batch."""
from defs_b import S
from defs_c import D1, D2, D3

# the drivers' constants are for the user to edit: run a copy of the driver with other values on the stand-in
DR = '''import ast, os, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(here, "standin"), os.path.join(os.getcwd(), "src")]
import numpy as np


def need(ok, msg):
    sys.stdout.flush()
    if not ok:
        sys.exit(f"FAILED: {msg}")


def run(dim, levels=1, **values):
    import dxss.meshes as mm

    full = mm.get_mesh_data_all_around
    mm.get_mesh_data_all_around = lambda n, *a, **k: full(min(n, levels), *a, **k)
    tree = ast.parse(open(f"src/dxss/solve_{dim}d.py").read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id in values:
            node.value = ast.copy_location(ast.Constant(values[node.targets[0].id]), node.value)
    ns = {"__name__": "driver"}
    home = os.getcwd()
    with tempfile.TemporaryDirectory() as tmp:  # the mesh generators write files to the working directory
        os.chdir(tmp)
        exec(compile(ast.fix_missing_locations(tree), "driver", "exec"), ns)
        os.chdir(home)
    mm.get_mesh_data_all_around = full
    return ns


def errors(ns):
    got = []
    st = ns["ST"]
    plain = st.measured_errors
    st.measured_errors = lambda v, *a, **k: got.append(plain(v, *a, **k))
    ns["SOLVER_TYPE"] = "direct"
    ns["solve_problem"](measure_errors=True)
    return list(got[0].values())


'''
_ = S
BUGS = [
    dict(id="d04-swapped-orders", prop="D04", standin=True, edits=[(D1, '''    OrderSpace(k, kstar),
''', '''    OrderSpace(kstar, k),
''')],
         needs="an order other than one in the 1D driver (all four orders are one as shipped)",
         breaks="primal and dual orders in space are exchanged: the solution does not gain accuracy with the order",
         demo=DR + '''e = errors(run(1, N=6, ORDER=2))
need(e[0] < 0.02 and e[1] < 0.07, f"errors {e} with second order")
'''),
    dict(id="d04-fixed-time", prop="D04", standin=True, edits=[(D3, '''    T=T,
    t=t0,
''', '''    T=1 / 2,
    t=t0,
''')],
         needs="a final time other than the shipped one half", breaks="the final time set in the 3D driver is ignored",
         demo=DR + '''ns = run(3, REF_LVL=0, T=1.0)
rhs = ns["ST"].get_spacetime_rhs().array
half = run(3, REF_LVL=0)["ST"].get_spacetime_rhs().array
need(rhs.shape == half.shape and np.abs(rhs - half).max() > 1e-3 * np.abs(half).max(), "the data for T = 1 and T = 1/2 are the same")
'''),
    dict(id="d04-capped-order", prop="D04", standin=True, edits=[(D2, '''q = ORDER
''', '''q = min(ORDER, 2)
''')],
         needs="third order, and the size of the errors judged against the order", breaks="the order in time stays two: third-order accuracy is lost silently",
         demo=DR + '''e = errors(run(2, REF_LVL=0, ORDER=3, T=0.5))
need(e[0] < 0.01 and e[2] < 0.3, f"errors {e} with third order")
'''),
]
