#!/bin/bash
# nothing to compile: check the oracles of the monitors against each other
cd "$(dirname "$0")" || exit 3
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore -m rv.selftest
