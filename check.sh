#!/bin/bash
# check.sh PID [--tier quick|thorough] [--replay FILE]
export PETSC_DIR=/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
export HYPOTHESIS_STORAGE_DIRECTORY=/tmp/.dxss-verif-hypothesis MPLCONFIGDIR=/tmp/.dxss-verif-mpl
unset PETSC_OPTIONS PYTHONPATH
exec /opt/venv/bin/python -B "$(dirname "$(readlink -f "$0")")/checks/run.py" "$@"
