#!/bin/bash
# usage: bash run.sh <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE]
# Runs the runtime monitor of one property against /repo's working tree.
D=$(cd "$(dirname "$0")" && pwd)
if [ ! -f "$D/build/rfv_poison.so" ]; then bash "$D/setup.sh" || exit 3; fi
export LANG=C.UTF-8 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
export RFV_REPO="${RFV_REPO:-/repo}"
export PYTHONPATH="$RFV_REPO:$D:$D/build"
W=$(mktemp -d "${TMPDIR:-/tmp}/rfv.XXXXXX") || exit 3
export RFV_SCRATCH="$W" HOME="$W/home" MPLCONFIGDIR="$W/home/mpl" TMPDIR="$W/tmp"
mkdir -p "$W/home" "$W/tmp"
( cd "$W" && exec /opt/venv/bin/python -m rfv.main "$@" )
rc=$?
rm -rf -- "$W"
exit $rc
