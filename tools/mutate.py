#!/usr/bin/env python3
"""Mutation testing of the checks (by hand): mutate.py FILE 'PROPS' --n N --seed S [--tier quick] [--only func,func]

Random small changes of /repo/src/dxss/FILE are made in a scratch copy and the quick checks of PROPS run against it, in order,
until one reports a violation.  Survivors are printed; they are either equivalent, or show a gap.
"""
import argparse
import ast
import copy
import os
import random
import shutil
import subprocess
import sys
import time
from pathlib import Path

ap = argparse.ArgumentParser()
ap.add_argument("file")
ap.add_argument("props")
ap.add_argument("--n", type=int, default=20)
ap.add_argument("--seed", type=int, default=0)
ap.add_argument("--only", default="")
ap.add_argument("--list", action="store_true")
ap.add_argument("--work", default="/tmp/mutwork")
ap.add_argument("--ids", default="")
ap.add_argument("--verif", default="/verif")
a = ap.parse_args()
SRC = Path("/repo/src/dxss") / a.file
text = SRC.read_text()
tree = ast.parse(text)
lines = text.split("\n")
muts = []  # (lineno, description, function to apply)


def seg(n):
    return ast.get_source_segment(text, n)


def visit(node, fn):
    name = fn
    if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
        name = (fn + "." if fn else "") + node.name
    for child in ast.iter_child_nodes(node):
        visit(child, name)
    if isinstance(node, ast.JoinedStr):
        return
    if not hasattr(node, "lineno"):
        return

    def add(desc, new):
        muts.append((name, node.lineno, desc, node, new))

    if isinstance(node, ast.BinOp):
        sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "*", ast.Mod: "*"}.get(type(node.op))
        if sw and not (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
            add("binop", f"({seg(node.left)} {sw} {seg(node.right)})")
            if isinstance(node.op, (ast.Add, ast.Sub)):
                add("drop-right", f"({seg(node.left)})")
    elif isinstance(node, ast.Compare) and len(node.ops) == 1:
        sw = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}.get(type(node.ops[0]))
        if sw:
            add("compare", f"({seg(node.left)} {sw} {seg(node.comparators[0])})")
    elif isinstance(node, ast.Constant) and type(node.value) in (int, float):
        v = node.value
        if isinstance(v, int):
            add("const+1", repr(v + 1))
            if v > 0:
                add("const-1", repr(v - 1))
        else:
            add("const*", repr(v * 1.3 if v else 0.1))
            if v:
                add("const-neg", f"({-v!r})")
    elif isinstance(node, ast.Constant) and type(node.value) is bool:
        add("bool", repr(not node.value))
    elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
        add("drop-neg", f"({seg(node.operand)})")
    elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        add("drop-not", f"({seg(node.operand)})")
    elif isinstance(node, (ast.If, ast.IfExp)):
        muts.append((name, node.test.lineno, "negate-if", node.test, f"(not ({seg(node.test)}))"))
        muts.append((name, node.test.lineno, "if-true", node.test, "True"))
    elif isinstance(node, ast.AugAssign):
        if isinstance(node.op, (ast.Add, ast.Sub)):
            op = "-=" if isinstance(node.op, ast.Add) else "+="
            add("augassign", f"{seg(node.target)} {op} ({seg(node.value)})")
        add("drop-stmt", "pass")
    elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
        add("drop-stmt", "pass")
    elif isinstance(node, ast.Assign) and isinstance(node.targets[0], (ast.Attribute, ast.Subscript)) and fn and "__init__" not in name:
        add("drop-stmt", "pass")
    elif isinstance(node, ast.Call) and len(node.args) >= 2 and not any(isinstance(x, ast.Starred) for x in node.args):
        s = [seg(x) for x in node.args]
        if s[0] != s[1]:
            rest = [seg(k.value) if k.arg is None else f"{k.arg}={seg(k.value)}" for k in node.keywords]
            add("swap-args", f"{seg(node.func)}({', '.join([s[1], s[0], *s[2:], *rest])})")
    elif isinstance(node, ast.BoolOp):
        op = " and " if isinstance(node.op, ast.Or) else " or "
        add("boolop", "(" + op.join(f"({seg(v)})" for v in node.values) + ")")
    elif isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Tuple) and len(node.slice.elts) == 2 and isinstance(node.ctx, ast.Load) and not any(isinstance(x, ast.Slice) for x in node.slice.elts):
        add("transpose", f"{seg(node.value)}[{seg(node.slice.elts[1])}, {seg(node.slice.elts[0])}]")


visit(tree, "")
offs = [0]
for ln in text.encode().split(b"\n"):
    offs.append(offs[-1] + len(ln) + 1)


def apply(node, new):
    b = text.encode()
    s = offs[node.lineno - 1] + node.col_offset
    e = offs[node.end_lineno - 1] + node.end_col_offset
    return (b[:s] + new.encode() + b[e:]).decode()


if a.only:
    keep = a.only.split(",")
    muts = [m for m in muts if any(k in m[0] for k in keep)]
order = list(range(len(muts)))
random.Random(a.seed).shuffle(order)
if a.ids:
    order = [int(x) for x in a.ids.split(",")]
print(len(muts), "candidates", flush=True)
W = Path(a.work)
if W.exists():
    shutil.rmtree(W)
subprocess.run(["cp", "-a", "/repo", str(W)], check=True)
dst = W / "src/dxss" / a.file
done = killed = 0
for i in order:
    if done >= a.n:
        break
    fn, ln, desc, node, new = muts[i]
    src = apply(node, new)
    try:
        ast.parse(src)
    except SyntaxError:
        continue
    what = f"#{i} {a.file}:{ln} {fn} {desc}: {(seg(node) or '')[:70]!r} -> {new[:70]!r}".replace("\n", " ")
    if a.list:
        print(what)
        done += 1
        continue
    dst.write_text(src)
    if a.file in ("gmres.py",):
        env = {**os.environ, "PYTHONPATH": str(W / "src")}
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "tests/test_gmres.py", "-p", "no:cacheprovider"], cwd=W, env=env, capture_output=True)
        if r.returncode:
            continue
    done += 1
    t0, res = time.time(), []
    hit = None
    for p in a.props.split():
        try:
            r = subprocess.run([a.verif + "/check.sh", p, "--tier", "quick", "--seed", "1"], env={**os.environ, "DXSS_SRC": str(W / "src")}, capture_output=True, text=True, timeout=900)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
        res.append(f"{p}={rc}")
        if rc == 1:
            hit = p
            msg = [x for x in r.stdout.splitlines() + r.stderr.splitlines() if x.startswith("[")][:1]
            break
    if hit:
        killed += 1
        print(f"killed by {hit} ({time.time() - t0:.0f}s, {' '.join(res)}) {what}", flush=True)
    else:
        print(f"SURVIVED ({' '.join(res)}) {what}", flush=True)
print(f"{killed}/{done} killed")
shutil.rmtree(W)
_ = copy, sys
