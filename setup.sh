#!/bin/bash
# Nothing to build: checks import /repo's working tree. Confirms the interpreter and packages are there.
. /opt/vp/env.sh
cd "$(dirname "$(realpath "$0")")" || exit 1
PYTHONPATH="$PWD" /opt/venv/bin/python -c "import wax.modules, wax.flax, numba, pandas, xarray, wv.run" || exit 1
