#!/bin/bash
# nothing to build: checks the interpreter and the package are there
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo /opt/venv/bin/python -c 'import numpy, scipy, autograd, pandas, pynare' || exit 2
echo ready
