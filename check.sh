#!/bin/bash
# check.sh PROPERTY [quick|thorough] [config filter]
cd "$(dirname "$0")" || exit 2
export MPLBACKEND=Agg MPLCONFIGDIR="${MPLCONFIGDIR:-/tmp/symx-mpl}" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -m symx.run "$@"
