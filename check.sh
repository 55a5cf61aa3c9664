#!/bin/bash
# check.sh <property> [quick|thorough] [--replay FILE]
# Runs one check against the working tree of /repo (pure Python: "building" is
# importing the current sources; byte code goes to a private scratch folder).
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export LANG=C.UTF-8 PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONWARNINGS=ignore
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
SCRATCH="$(mktemp -d /tmp/verif_check.XXXXXX)" || exit 2
trap 'rm -rf -- "$SCRATCH"' EXIT
export VERIF_SCRATCH="$SCRATCH" TMPDIR="$SCRATCH"
export HOME="$SCRATCH" MPLCONFIGDIR="$SCRATCH/mpl"
export PYTHONDONTWRITEBYTECODE=1
for a in "$@"; do case "$a" in quick|thorough) export VERIF_TIER="$a";; esac; done
cd "$SCRATCH" || exit 2
/opt/venv/bin/python "$HERE/mc/main.py" "$@"
