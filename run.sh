#!/bin/bash
# bash run.sh <PROPERTY-ID> [quick|thorough] [--replay FILE]
# Runs one property's generated-input search against /repo/src (the working tree).
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PIP_NO_INDEX=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3-vt
exec "$PY" -m harness.main "$@"
