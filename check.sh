#!/bin/bash
# check.sh <PROPERTY> [args]: runs one check against /repo's working tree
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python harness/run.py "$@"
