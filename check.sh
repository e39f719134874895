#!/bin/bash
# usage: check.sh <property id> [quick|thorough] [--replay file]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONWARNINGS=ignore LC_ALL=C.UTF-8
unset PYTHONPATH
exec /opt/venv/bin/python -c "import sys; from harness.core import main; main(sys.argv)" "$@"
