#!/bin/bash
# Usage: ./check.sh <PROPERTY-ID>          (tier comes from VERIF_TIER, default quick)
#        ./check.sh --replay <replay file> (re-executes one recorded counterexample)
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -W ignore -m mc.main "$@"
