#!/bin/sh
# usage: check.sh ID [options]   (run in /verif)
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec env LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 "$PY" sim/orch.py "$@"
