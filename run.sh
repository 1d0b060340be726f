#!/bin/bash
# usage: run.sh PROPERTY   (VERIF_TIER, VERIF_SEED from the environment)
cd "$(dirname "$0")" || exit 3
export PYTHONPATH="$PWD:${VERIF_REPO:-/repo}/src/python" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -m symx.runner "$1"
