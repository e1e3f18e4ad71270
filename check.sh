#!/bin/bash
# usage: check.sh <property> [--replay FILE]   (VERIF_SEED, VERIF_TIER from the environment)
# Runs the generated-input check of one property against /repo's current working tree.
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export HOME="${HOME:-/root}" LANG=C.UTF-8 LC_ALL=C.UTF-8
export PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export PYTHONWARNINGS=ignore
unset PYTHONPATH
# Every byte written by the code under test lands in this scratch directory.
VERIF_WORK="$(mktemp -d /tmp/verif-check.XXXXXX)" || exit 2
export VERIF_WORK
trap 'rm -rf "$VERIF_WORK"' EXIT
mkdir -p "$VERIF_WORK/cwd" "$VERIF_WORK/numba" "$VERIF_WORK/mpl" "$VERIF_WORK/tmp" "$VERIF_WORK/hyp"
export NUMBA_CACHE_DIR="$VERIF_WORK/numba" MPLCONFIGDIR="$VERIF_WORK/mpl" TMPDIR="$VERIF_WORK/tmp"
export HYPOTHESIS_STORAGE_DIRECTORY="$VERIF_WORK/hyp" PYTHONPYCACHEPREFIX="$VERIF_WORK/pyc"
PY="${VERIF_PYTHON:-/opt/venv/bin/python}"
cd "$VERIF_WORK/cwd" || exit 2
"$PY" "$HERE/run.py" "$@"
