#!/bin/bash
# check.sh PROPERTY quick|thorough   or   check.sh replay FILE
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache
if [ "$1" = replay ]; then exec "$PY" -m sim.run replay "$2"; fi
exec "$PY" -m sim.run check "$1" "${2:-quick}"
