#!/bin/bash
# bash run.sh <property id> quick|thorough
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export OMP_WAIT_POLICY=passive PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1
exec /opt/vp/venv/bin/python tools/main.py "$@"
