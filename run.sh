#!/bin/bash
# usage: run.sh <PROPERTY> quick|thorough          run a check
#        run.sh <PROPERTY> replay <file.json>      re-run one saved case without the generator library
cd "$(dirname "$0")" || exit 3
. /opt/vp/env.sh 2>/dev/null
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export HYPOTHESIS_STORAGE_DIRECTORY=/nonexistent-hypothesis
exec /opt/venv/bin/python -W ignore lib/harness.py "$@"
