#!/bin/sh
# usage: ./check.sh Cxx quick|thorough | ./check.sh Cxx replay FILE
cd "$(dirname "$0")" || exit 1
export PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -W ignore check.py "$@"
