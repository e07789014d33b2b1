#!/bin/bash
# Nothing to compile; verifies that what the checks import is there.
set -e
cd "$(dirname "$(readlink -f "$0")")"
export PETSC_DIR=/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
/opt/venv/bin/python -B -c '
import sys; sys.path.insert(0, "lib")
from vh import env; env.setup()
import hypothesis, numpy, scipy, ufl, gmsh, meshio, petsc4py, dxss.gmres, dxss.precomp_time_int, dxss.space_time, dxss.meshes
print("ok")'
