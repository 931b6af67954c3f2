#!/bin/bash
# check.sh MODULE: run one check against /repo's current working tree.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${VERIF_SEED:-1}" TZ=UTC PROJ_NETWORK=OFF
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 HOME="${HOME:-/root}"
exec /opt/venv/bin/python -m mc.run "$1"
