#!/bin/bash
# nothing to build: the verifier is plain Python and reads /repo's source on every run.
# setup checks the analysis facts the verifier builds in (Lean + Mathlib, when installed) and
# cross-checks the verifier's semantics against CPython + numpy.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg PYTHONHASHSEED=0
mkdir -p evidence
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
if command -v lean >/dev/null 2>&1; then
  # lean/Trig.lean does not depend on /repo: a failure here is one of the installation, and is only reported
  if timeout 300 lean lean/Trig.lean; then echo "lean/Trig.lean: all lemmas checked"; else echo "lean/Trig.lean: NOT checked (rc $?)"; fi
fi
[ -f pyvc/selftest.py ] && exec "$PY" -m pyvc.selftest
exit 0
