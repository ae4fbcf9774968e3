#!/bin/bash
# usage: run.sh <property id> [--replay FILE]
# Runs one monitored check against /repo's working tree (imported in place).
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d /tmp/verif.XXXXXX)
trap 'rm -rf "$scratch"' EXIT
export PYTHONNOUSERSITE=1 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
export TQDM_DISABLE=1
export MPLBACKEND=Agg CUDA_VISIBLE_DEVICES=
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export MPLCONFIGDIR="$scratch/mpl" XDG_CACHE_HOME="$scratch/cache" TMPDIR="$scratch" VERIF_SCRATCH="$scratch"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
export VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$here:$VERIF_REPO"
cd "$here" || exit 2
if [ "$1" = --setup ]; then
  mkdir -p evidence replays
  /opt/venv/bin/python -W ignore -c "import harness.core, harness.gen, harness.ref, obp; print('obp from', obp.__file__)"
  exit $?
fi
/opt/venv/bin/python -W ignore -m harness.main "$@"
rc=$?
exit $rc
