#!/bin/sh
# usage: check.sh <property id>      (environment: VERIF_TIER=quick|thorough, VERIF_SEED=<int>)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -m harness.run "$1"
