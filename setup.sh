#!/bin/bash
# Nothing to compile: pySC is pure Python and runs in place. Verifies the environment the checks need.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
exec env PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python - <<'P'
import sys
sys.path.insert(0, '/repo')
import numpy, scipy, at
print('environment ok:', numpy.__version__, scipy.__version__)
P
