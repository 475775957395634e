#!/bin/bash
# Nothing to build: the checks are python, interpreted by the environment of the repository.
cd "$(dirname "$0")" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
PY=${PY:-/opt/venv/bin/python}
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 "$PY" -c 'import sys; print(sys.version); import arpeggio, toolz, future'
