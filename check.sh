#!/bin/bash
# check.sh <property> [quick|thorough]
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1
exec /opt/venv/bin/python -m pyvc.check "$@"
