#!/bin/bash
# usage: check.sh <property id> [quick|thorough]
# Runs one check against /repo's working tree (simpy is pure Python: importing it from source is the build).
here="$(cd "$(dirname "$0")" && pwd)"
# no bytecode is read (the prefix does not exist) and none is written
export PYTHONPYCACHEPREFIX=/nonexistent/verif-pyc PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export MPLBACKEND=Agg
export PYTHONPATH="${VERIF_SRC:-/repo/src}"
cd "$here" || exit 2
/opt/venv/bin/python -B "$here/mc/main.py" "$@"
exit $?
