#!/bin/bash
# run.sh <PROPERTY-ID> [quick|thorough]      decide one property against /repo's working tree
# run.sh replay <replay-file>                re-execute one recorded counterexample
# run.sh all [quick|thorough]                all checks one after another
here="$(cd "$(dirname "$0")" && pwd)"
export REPO="${REPO:-/repo}"
export PYTHONPATH="$here:$REPO/src" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 LC_ALL=C.UTF-8
export MPLBACKEND=Agg
export VERIF_SEED="${VERIF_SEED:-1}"
if [ -n "$2" ] && [ "$1" != replay ]; then export VERIF_TIER="$2"; fi
export VERIF_TIER="${VERIF_TIER:-quick}"
scratch="$(mktemp -d "${TMPDIR:-/tmp}/bgemmc.XXXXXX")" || exit 2
trap 'rm -rf -- "$scratch"' EXIT
export MPLCONFIGDIR="$scratch/mpl" MC_SCRATCH="$scratch"
mkdir -p "$MPLCONFIGDIR"
cd "$here" || exit 2
/opt/venv/bin/python -m mc.run "$@"
