#!/bin/bash
# bash run.sh <property id> quick|thorough|replay [FILE]
# Runs one check against the current working tree of /repo (pure Python, so
# importing it is the build) in a scratch directory that is removed afterwards.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
repo=${MFPML_REPO:-/repo}
py=/opt/venv/bin/python
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
if [ "$3" ]; then file=$(realpath -m "$3"); fi
cd "$scratch" || exit 2
export PYTHONPATH="$repo/src:$here" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export MPLBACKEND=Agg MPLCONFIGDIR="$scratch/mpl" OMP_NUM_THREADS=1
export OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 VERIF_ROOT="$here"
mkdir -p "$scratch/mpl"
cp -r /opt/venv/mplconfig/. "$scratch/mpl/" 2>/dev/null
"$py" -W ignore -m harness.core "$1" "${2:-quick}" $file
