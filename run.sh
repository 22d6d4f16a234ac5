#!/bin/bash
# run.sh PROPERTY TIER: runs one check against /repo's working tree
cd "$(dirname "$0")" || exit 2
export VERIF_TIER="$2"
exec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python check.py "$1" --tier "$2"
