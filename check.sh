#!/bin/bash
# bash check.sh <PROPERTY> [--tier quick|thorough] [--replay FILE]
# runs the check against /repo's working tree (the package is used in place; nothing to build)
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=/repo:$here PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPYCACHEPREFIX=/nonexistent/no-pycache     # never trust stale bytecode
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLBACKEND=Agg
export MPLCONFIGDIR=$(mktemp -d /tmp/verif-mpl-XXXXXX)
trap 'rm -rf -- "$MPLCONFIGDIR"' EXIT
cd "$here" || exit 2
/opt/venv/bin/python -m mc.runner "$@"
