#!/bin/bash
# usage: run.sh <property> quick|thorough|--replay FILE
cd "$(dirname "$(realpath "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 OPENBLAS_CORETYPE=Haswell
export VERIF_SEED="${VERIF_SEED:-1}" HDF5_USE_FILE_LOCKING="${HDF5_USE_FILE_LOCKING:-TRUE}"
PYTHONPATH="${MLMCMON_REPO:-/repo}":"$PWD"
export PYTHONPATH
exec /opt/venv/bin/python -m mlmcmon.main "$@"
