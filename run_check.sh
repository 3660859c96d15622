#!/bin/bash
# usage: run_check.sh ID [quick|thorough] [--replay FILE] [--seed N]
# Runs the runtime monitors of one property against the working tree of /repo.
cd "$(dirname "$0")" || exit 3
ID=$1; shift
case "$1" in quick|thorough) export VERIF_TIER=$1; shift;; esac
export LC_ALL=C.UTF-8 PROJ_NETWORK=OFF PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export PYTHONPYCACHEPREFIX=/nonexistent/verif-pycache OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export PYTHONPATH=$PWD VERIF_SEED=${VERIF_SEED:-1}
exec /opt/venv/bin/python -W ignore -c 'import sys; from vlib import harness; sys.exit(harness.main())' "$ID" "$@"
