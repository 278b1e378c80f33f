#!/bin/bash
# run.sh <property> quick|thorough [seed]  |  run.sh <property> replay <file>
cd "$(dirname "$0")" || exit 2
export LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 PYTHONDONTWRITEBYTECODE=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -X utf8 pbt/main.py "$@"
