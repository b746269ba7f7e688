#!/bin/bash
# usage: check.sh <property id>   (VERIF_TIER, VERIF_SEED from the environment)
cd "$(dirname "$0")" || exit 1
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
PY=python3
command -v python3-vt >/dev/null 2>&1 && PY=python3-vt
exec $PY vlib/checks/run.py "$1"
