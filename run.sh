#!/bin/bash
# run.sh check <property> [quick|thorough]   |   run.sh show <replay.json>
cd "$(dirname "$(readlink -f "$0")")" || exit 3
export HOME=${HOME:-/root} PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg TZ=UTC
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1 PYTHONWARNINGS=ignore
unset PYTHONPATH
exec /opt/venv/bin/python run.py "$@"
