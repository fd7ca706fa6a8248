#!/bin/bash
# run.sh CXX | run.sh --replay FILE
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$here"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1
NUMBA_CACHE_DIR="$(mktemp -d)"; export NUMBA_CACHE_DIR
cd "$here" || exit 3
/opt/venv/bin/python -B -m vgsym.check "$@"
rc=$?
/bin/rm -rf "$NUMBA_CACHE_DIR"
exit $rc
