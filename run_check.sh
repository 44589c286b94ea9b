#!/bin/bash
# usage: run_check.sh <PROPERTY-ID> [quick|thorough]     decide one property
#        run_check.sh <PROPERTY-ID> --replay FILE        replay one saved failure
# Runs the code in /repo's working tree (pure Python: importing it is the build).
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HFTOOLS_ROOT=${HFTOOLS_ROOT:-/repo}
export VERIF_CWD=$PWD
export LANG=C.UTF-8 LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg TZ=UTC
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export VERIF_SEED=${VERIF_SEED:-1}
if [ "${2:-}" = quick ] || [ "${2:-}" = thorough ]; then export VERIF_TIER=$2; fi
export VERIF_TIER=${VERIF_TIER:-quick}
scratch=$(mktemp -d /tmp/hfverif.XXXXXX) || exit 2
trap 'rm -rf -- "$scratch"' EXIT
export VERIF_SCRATCH=$scratch MPLCONFIGDIR=$scratch/mpl HYPOTHESIS_STORAGE_DIRECTORY=$scratch/hyp TMPDIR=$scratch
mkdir -p "$scratch/mpl" "$scratch/hyp" "$scratch/cwd"
cd "$scratch/cwd" || exit 2
/opt/venv/bin/python -W ignore "$here/vlib/main.py" "$@"
