#!/bin/bash
# usage: check.sh <property id> <quick|thorough> [family ...]   (run the monitors of one property)
#        check.sh replay <replay file>
cd "$(dirname "$0")" || exit 3
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore -m rv "$@"
