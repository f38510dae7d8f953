#!/bin/bash
# run.sh check <ID> [--tier quick|thorough] [--seed N] | replay <file>
cd "$(dirname "$0")" || exit 2
export MPLBACKEND=agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONWARNINGS=ignore
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" run.py "$@"
