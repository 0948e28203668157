#!/bin/bash
# Nothing to build: checks that the interpreter and the code under test can be imported.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
D=$(mktemp -d /tmp/verif.XXXXXXXX) || exit 1
trap 'rm -rf "$D"' EXIT
VERIF_SCRATCH=$D MPLCONFIGDIR=$D/mpl /opt/venv/bin/python -c "
from mc import boot, core
import src.models.matrix_operations
print('ready')"
