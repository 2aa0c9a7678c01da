#!/bin/bash
# check.sh PROPERTY [thorough]: run one check against /repo's working tree
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
[ "$2" = thorough ] && export VERIF_TIER=thorough
export VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1}
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
exec /opt/venv/bin/python lib/main.py "$1"
