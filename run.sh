#!/bin/bash
# usage: run.sh <property id> [quick|thorough] [--replay FILE]
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 HOME="${HOME:-/root}"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export VERIF_SEED="${VERIF_SEED:-1}"
export REPO_DIR="${REPO_DIR:-/repo}"
export PYTHONPATH="$here:$REPO_DIR"
PY=/opt/venv/bin/python
prop="$1"; shift
tier="${1:-${VERIF_TIER:-quick}}"; shift || true
export VERIF_TIER="$tier"
cd "$here" && exec "$PY" -W ignore -m vmon.main "$prop" --tier "$tier" "$@"
