#!/bin/bash
# run.sh <property> [--replay FILE]: run one check against /repo's tree.
cd "$(dirname "$0")" || exit 4
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent-pycache
export PYTHONHASHSEED=0 PIP_NO_INDEX=1
export VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
exec /opt/venv/bin/python run.py "$@" </dev/null
