#!/bin/bash
# usage: run.sh <property id> [--tier quick|thorough] [--seed N] [--replay FILE] [--workload NAME]
cd "$(dirname "$(readlink -f "$0")")" || exit 3
scratch=$(mktemp -d "${TMPDIR:-/tmp}/rv.XXXXXX") || exit 3
trap 'rm -rf -- "$scratch"' EXIT
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 \
       PYTHONHASHSEED=0 RAY_USAGE_STATS_ENABLED=0 MPLCONFIGDIR="$scratch/mpl" RV_SCRATCH="$scratch" \
       NUMBA_CACHE_DIR="$scratch/numba" OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 \
       XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1" \
       PYTHONPATH="${RV_REPO:-/repo}" PYTHONWARNINGS=ignore
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
"$PY" -m rv "$@"
rc=$?
exit $rc
