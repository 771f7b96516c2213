#!/bin/bash
# check.sh <property> [quick|thorough]    run the check of one property
# check.sh replay <file>                  re-run one saved failing case, without the generators
cd "$(dirname "$0")" || exit 2
export LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export QT_QPA_PLATFORM=offscreen MPLBACKEND=agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
WORK=$(mktemp -d) || exit 2
trap 'rm -rf "$WORK"' EXIT
export VP_SCRATCH=$WORK MPLCONFIGDIR=$WORK/mpl HYPOTHESIS_STORAGE_DIRECTORY=$WORK/hypothesis TMPDIR=$WORK/tmp PYTHONPYCACHEPREFIX=$WORK/pyc
mkdir -p "$MPLCONFIGDIR" "$TMPDIR" "$PYTHONPYCACHEPREFIX"
/opt/venv/bin/python -m vp.main "$@"
