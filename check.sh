#!/bin/bash
# usage: check.sh <PROPERTY> [quick|thorough]
cd "$(dirname "$(realpath "$0")")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export MPLBACKEND=Agg HYPOTHESIS_STORAGE_DIRECTORY=/nonexistent
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -W ignore run.py "$1" --tier "${2:-${VERIF_TIER:-quick}}"
