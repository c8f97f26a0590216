#!/bin/bash
# usage: check.sh <property id>            run the check of a property
#        check.sh --replay <replay file>   run the recorded cases again
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${PYTHONHASHSEED:-0}" OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python -m rv "$@"
