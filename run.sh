#!/bin/bash
# run.sh Cxx quick|thorough : discharge every obligation of one property against /repo
cd "$(dirname "$0")" || exit 2
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 JAX_PLATFORMS=cpu JAX_ENABLE_X64=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
export VERIF_SEED="${VERIF_SEED:-1}"
exec /opt/venv/bin/python -m jv.check "$1" --tier "${2:-quick}"
