#!/bin/bash
# run.sh <property> [quick|thorough]: runs one check against the working tree of /repo.
cd "$(dirname "$0")" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
PY=${PY:-/opt/venv/bin/python}
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 SKLEARN_SITE_JOBLIB=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 LANG=C.UTF-8
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_SEED=${VERIF_SEED:-1}
ID=$(echo "$1" | tr 'A-Z' 'a-z')
exec "$PY" -W ignore -m "checks.$ID"
