#!/bin/bash
# check.sh <property>: decides one property on /repo's current working tree.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="${KMV_REPO:-/repo}":"$PWD" OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore::SyntaxWarning -W ignore::FutureWarning -m kmv "$@"
