#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
find /repo/src -name __pycache__ -type d -prune -exec rm -rf {} + 2>/dev/null
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH=/repo/src:"$PWD"
exec /opt/venv/bin/python -m dst.run check "$1" --tier "${2:-${VERIF_TIER:-quick}}"
