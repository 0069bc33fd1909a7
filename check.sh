#!/bin/bash
# bash check.sh PROP [--tier T] [--unit U]   (see run.py)
D=$(cd "$(dirname "$0")" && pwd)
unset PYTHONPATH
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python "$D/run.py" "$@"
