#!/bin/bash
# usage: run.sh <property id> [quick|thorough]   |   run.sh replay <file>
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=${PYTHONHASHSEED:-0}
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 TERM=dumb
export JAJAPY_REPO=${JAJAPY_REPO:-/repo}
export PYTHONPATH="$JAJAPY_REPO"
exec /opt/venv/bin/python -W ignore -m mc "$@"
