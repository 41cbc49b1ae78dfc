#!/bin/bash
# usage: check.sh PROPERTY [--replay FILE]
# Runs the monitor of one property against /repo's current working tree.
. /opt/vp/env.sh
cd "$(dirname "$(realpath "$0")")" || exit 2
export PYTHONPATH="$PWD"
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1 MKL_NUM_THREADS=1
export TF_CPP_MIN_LOG_LEVEL=3
exec /opt/venv/bin/python -m wv.run "$@"
