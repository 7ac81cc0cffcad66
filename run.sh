#!/bin/bash
# run.sh PROPERTY [quick|thorough] [extra args]: run one property's monitors against /repo's working tree.
cd "$(dirname "$0")" || exit 2
PID="$1"; shift
ARGS=()
case "$1" in quick|thorough) ARGS=(--tier "$1"); shift;; esac
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
# never trust cached bytecode lying in /repo: judge the sources as they are now
SCRATCH="$(mktemp -d /tmp/vf.XXXXXX)"; trap 'rm -rf "$SCRATCH"' EXIT
export PYTHONPYCACHEPREFIX="$SCRATCH/pyc" TMPDIR="$SCRATCH"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
"$PY" -c 'import sys; from vf.core import main; sys.exit(main())' "$PID" "${ARGS[@]}" "$@"
