#!/bin/bash
# usage: check.sh <property id> [quick|thorough]      runs one check
#        check.sh <property id> --replay <file>       replays one recorded violation
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 \
       PYTHONWARNINGS=ignore PIP_NO_INDEX=1
SCRATCH=$(mktemp -d /tmp/verif.XXXXXXXX) || exit 2
export VERIF_SCRATCH=$SCRATCH MPLCONFIGDIR=$SCRATCH/mpl TMPDIR=$SCRATCH
trap 'rm -rf "$SCRATCH"' EXIT
/opt/venv/bin/python -m mc.main "$@"
