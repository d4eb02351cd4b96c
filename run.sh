#!/bin/bash
# usage: run.sh <PROPERTY> quick|thorough   |   run.sh --replay <file>
# Runs one monitor against /repo's working tree with the interpreter the repository is built for.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_REPO="${VERIF_REPO:-/repo}" VERIF_SEED="${VERIF_SEED:-1}"
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
py=/opt/venv/bin/python
scratch="$(mktemp -d /tmp/verif.XXXXXX)" || exit 2
trap 'case "$scratch" in /tmp/verif.??????) rm -rf -- "$scratch";; esac' EXIT
mkdir -p "$scratch/work" "$scratch/log" "$scratch/mpl"
export MPLCONFIGDIR="$scratch/mpl" VERIF_SCRATCH="$scratch"
cd "$scratch/work" || exit 2
"$py" -B "$here/mon/main.py" "$@"
exit $?
