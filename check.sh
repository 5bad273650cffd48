#!/bin/bash
# usage: check.sh <property id> [quick|thorough] [--replay FILE]
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; shift
tier="${1:-${VERIF_TIER:-quick}}"; [ $# -gt 0 ] && shift
export MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore HDF5_USE_FILE_LOCKING=FALSE
export VERIF_TIER="$tier"
export NUMBA_OPT="${NUMBA_OPT:-0}" NUMBA_NUM_THREADS=1
export PYTHONPATH="${VF_REPO:-/repo}:$here"
cd "$here" || exit 2
exec /opt/venv/bin/python -m vf.engine "$id" "$tier" "$@"
