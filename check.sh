#!/bin/bash
# usage: check.sh <property id> [quick|thorough]
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh 2>/dev/null
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1 TF_CPP_MIN_LOG_LEVEL=3 MPLBACKEND=Agg
PY=python
[ -x /opt/venv/bin/python ] && PY=/opt/venv/bin/python
exec $PY harness/run.py "$@"
