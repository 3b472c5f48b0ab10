#!/bin/bash
# Decides one property: bin/check.sh <property>   (VERIF_TIER, VERIF_SEED)
here="$(cd "$(dirname "$0")/.." && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python "$here/harness/check.py" "$@"
