#!/bin/bash
# nothing to build: checks that the interpreter and its modules are there
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 exec "$PY" -c "import lupaz8, PIL, sys; print('ok', sys.version)"
