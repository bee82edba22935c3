#!/bin/bash
# run.sh <property> [tier]   decide one property against /repo's working tree
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg PYTHONHASHSEED=0
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}" VERIF_SEED="${VERIF_SEED:-1}"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" check.py "$1" "${@:3}"
