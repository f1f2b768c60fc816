#!/bin/bash
# Nothing is compiled: check that the interpreter, the library under test and the simulator load.
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache "$PY" -c "
import sim.profiles, psrpcore
print('psrpcore from', psrpcore.__file__)
print('profiles:', ' '.join(sorted(sim.profiles.PROFILES)))"
