#!/bin/bash
# usage: check.sh <property id> [--tier quick|thorough] [--replay FILE] [--family NAME] [--index N]
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 DISABLE_CONTRACTS=1 MPLBACKEND=Agg LANG=C.UTF-8
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export HOME="${HOME:-/root}"
tmp="$(mktemp -d "${TMPDIR:-/tmp}/verif-XXXXXXXX")"
export MPLCONFIGDIR="$tmp/mpl" VERIF_TMP="$tmp"
mkdir -p "$MPLCONFIGDIR"
cd "$tmp" || exit 2
/opt/venv/bin/python -B "$here/vlib/runner.py" "$@"
rc=$?
cd / && rm -rf -- "$tmp"
exit $rc
