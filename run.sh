#!/bin/bash
# usage: run.sh <property id> [--replay FILE]     (tier: VERIF_TIER, seed: VERIF_SEED)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg LANG=C.UTF-8
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export PYTHONPATH="$PWD${PYTHONPATH:+:$PYTHONPATH}" PYTHONWARNINGS=ignore
scratch=$(mktemp -d /tmp/gcv.XXXXXX) || exit 2
trap 'rm -rf "${scratch:?}"' EXIT
export NUMBA_CACHE_DIR="${GCV_NUMBA_CACHE:-$scratch}" GCV_SCRATCH="$scratch"
/opt/venv/bin/python -m gcv.run "$@"
