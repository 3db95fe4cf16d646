#!/bin/bash
# usage: check.sh check <ID> [quick|thorough]  |  check.sh replay <file>
cd "$(dirname "$0")" || exit 2
SCRATCH=$(mktemp -d /tmp/doamc.XXXXXX)
trap 'rm -rf -- "$SCRATCH"' EXIT
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONHASHSEED=0
export MPLBACKEND=Agg MPLCONFIGDIR="$SCRATCH/mpl" PYTHONDONTWRITEBYTECODE=1
# ignore any stale bytecode of the working tree: compile from source every time
export PYTHONPYCACHEPREFIX="$SCRATCH/pyc"
mkdir -p "$SCRATCH/mpl"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
"$PY" mc/run.py "$@"
