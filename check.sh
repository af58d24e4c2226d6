#!/bin/bash
# usage: check.sh <PROPERTY> quick|thorough [--replay FILE] [-v]
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$VERIF_REPO"
: "${VERIF_SEED:=1}"; export VERIF_SEED
py=/opt/venv/bin/python; [ -x "$py" ] || py=python3
exec "$py" -W ignore "$here/run.py" "$@"
