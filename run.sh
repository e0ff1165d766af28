#!/bin/bash
# usage: run.sh <property> [quick|thorough]   |   run.sh --replay <file>
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
PY=$(command -v python3-vt || echo /opt/veriftools/pyvenv/bin/python)
exec "$PY" -m pbt.run "$@"
