#!/bin/bash
# bash run.sh <ID> [--tier T] [--seed N] [-n cases] [--replay FILE | --case INDEX] [-v]
cd "$(dirname "$0")" || exit 2
export PATH=/opt/venv/bin:$PATH PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -W ignore -m vlib.run "$@"
