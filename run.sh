#!/bin/bash
# run.sh PROPERTY TIER
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES=
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export VERIF_TIER=${2:-${VERIF_TIER:-quick}} VERIF_SEED=${VERIF_SEED:-1}
unset PYTHONPATH PYTHONSTARTUP
scratch=$(mktemp -d "${TMPDIR:-/tmp}/verif_mc.XXXXXX") || exit 2
trap 'rm -rf -- "$scratch"' EXIT
export VERIF_SCRATCH=$scratch MPLCONFIGDIR=$scratch/mpl
mkdir -p "$MPLCONFIGDIR"
p=$(echo "$1" | tr 'A-Z' 'a-z')
/opt/venv/bin/python -B -W ignore "$here/checks/$p.py"
