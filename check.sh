#!/bin/bash
# bash /verif/check.sh PXX [--tier quick|thorough] [--replay FILE] ...
here=$(cd "$(dirname "$0")" && pwd)
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${VERIF_HASHSEED:-0}"
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="${VERIF_REPO_SRC:-/repo/src}:$here"
unset PYTHONSTARTUP PYTHONINSPECT PYTHONWARNINGS
cd "$here" || exit 2
exec /opt/venv/bin/python -W ignore -m sim.check "$@"
