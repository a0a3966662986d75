#!/bin/bash
# usage: bash run.sh <PROPERTY> [quick|thorough] [--replay FILE]
# Runs one model-checking harness against the working tree of /repo (override with FRM_REPO=dir).
# Nothing is written into /repo: byte code and numba caches go to a fresh scratch directory.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export FRM_REPO="${FRM_REPO:-/repo}"
work=$(mktemp -d "${TMPDIR:-/tmp}/mc.XXXXXXXX")
trap 'rm -rf "$work"' EXIT
export PROJECT_DIR_FRM="$FRM_REPO" PYTHONPATH="$here:$FRM_REPO" MPLBACKEND=Agg MPLCONFIGDIR="$work/mpl" TZ=UTC PYTHONHASHSEED=0
export PYTHONPYCACHEPREFIX="$work/pyc" NUMBA_CACHE_DIR="$work/numba" TMPDIR="$work"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_DIR="$here"
mkdir -p "$work/mpl" "$here/evidence"
cd "$here" || exit 2
py=/opt/venv/bin/python
"$py" -W ignore -m mc.main "$@"
