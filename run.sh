#!/bin/bash
# run.sh <property> [--tier quick|thorough] [--seed N] [--replay FILE] [--facet NAME]
# Decides one property on the tree at $VERIF_REPO (default /repo).
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PIP_NO_INDEX=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export VERIF_REPO=${VERIF_REPO:-/repo}
export PYTHONPATH=$here
cd "$here" || exit 3
if [ "$1" = --setup ]; then exec /opt/venv/bin/python -m vf.boot; fi
exec /opt/venv/bin/python -m vf.main "$@"
