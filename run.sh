#!/bin/bash
# run.sh <PROPERTY-ID> [--tier quick|thorough] [--replay FILE]: explore one property.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export NUMEXPR_NUM_THREADS=1 MPLBACKEND=Agg PYTHONWARNINGS=ignore PYTHONHASHSEED=0
exec /opt/venv/bin/python mc/main.py "$@"
