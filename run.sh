#!/bin/sh
# usage: run.sh <property-id> [--tier quick|thorough] [--replay FILE]
# Checks one property against the code in $MC_REPO (default /repo).
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8 PYTHONHASHSEED=0
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export MC_HOME="$here"
cd "$here" || exit 2
exec "${MC_PYTHON:-/opt/pypyvenv/bin/python}" -m mc.main "$@"
