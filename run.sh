#!/bin/bash
# run.sh <property id>: runs one check. VERIF_SEED, VERIF_TIER, VERIF_REPO.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUNBUFFERED=1
export OMP_NUM_THREADS=8 OPENBLAS_NUM_THREADS=1
exec "${VERIF_PY:-/opt/venv/bin/python}" -W ignore "$here/lib/main.py" "$@"
