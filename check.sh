#!/bin/bash
# usage: check.sh <property-id> | replay <file>   (run in /verif)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LANG=C.UTF-8 LC_ALL=C.UTF-8 PIP_NO_INDEX=1
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
unset PYTHONPATH PKM_HOME VIRTUAL_ENV
exec /opt/venv/bin/python -m mc.run "$@"
