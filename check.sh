#!/bin/bash
# usage: check.sh <PROPERTY> [--replay FILE] [--cases N] [--seed S]
# Runs one check against /repo's current working tree (pure Python: importing it is the build).
# Tier comes from VERIF_TIER (quick|thorough), the seed from VERIF_SEED.
export VP_CWD="$PWD"
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d /tmp/vpcheck.XXXXXX)"
trap 'rm -rf -- "$scratch"' EXIT
mkdir -p "$scratch/pyc" "$scratch/cwd"
export REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$here:$REPO" PYTHONHASHSEED=0 PYTHONPYCACHEPREFIX="$scratch/pyc"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 CUDA_VISIBLE_DEVICES= LC_ALL=C.UTF-8
export VP_SCRATCH="$scratch" VP_HOME="$here" TMPDIR="$scratch" JOBLIB_TEMP_FOLDER="$scratch"
cd "$scratch/cwd" || exit 2
/opt/venv/bin/python -m vp.run "$@"
