#!/bin/bash
# check.sh ID : run the check of one property against /repo's working tree
cd "$(dirname "$0")" || exit 2
export HOME=/root LANG=C.UTF-8 LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg PYTHONPATH="${VERIF_REPO:-/repo}:$PWD/lib"
unset MAKEFLAGS
exec /opt/venv/bin/python -W ignore "checks/$1.py"
