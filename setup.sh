#!/bin/bash
# Nothing to build: pure Python. Verify that interpreter, package and golden data are usable offline.
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
mkdir -p evidence replay
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" "$PY" -c 'from vf import core; core.prepare_import(); from vf.ref import data; data.climate(); print("ok")'
