#!/bin/bash
# bash /verif/check.sh <property> [--tier quick|thorough] ...
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root LANG=C.UTF-8
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONWARNINGS=ignore
work=$(mktemp -d /tmp/vh_run.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
export TMPDIR=$work MPLCONFIGDIR=$work
cd "$work" || exit 2
/opt/venv/bin/python "$here/run.py" "$@"
