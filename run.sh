#!/bin/bash
# usage: run.sh <property id> [quick|thorough]   -- runs checks/<id>.py against /repo's working tree
cd "$(dirname "$0")" || exit 3
VERIF="$PWD"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export VERIF_SEED="${VERIF_SEED:-1}"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
# fresh bytecode cache (never trust stale .pyc of the tree under test), private HOME for colossus' cache
SCRATCH="$(mktemp -d /tmp/pyhalo-check-XXXXXX)" || exit 3
trap 'rm -rf "$SCRATCH"' EXIT
export PYTHONPYCACHEPREFIX="$SCRATCH/pyc" PYHALO_SCRATCH="$SCRATCH" HOME="$SCRATCH/home" TMPDIR="$SCRATCH"
export XDG_CACHE_HOME="$SCRATCH/home/.cache" XDG_CONFIG_HOME="$SCRATCH/home/.config"
mkdir -p "$HOME/.astropy" "$XDG_CACHE_HOME" "$XDG_CONFIG_HOME"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
# a generous budget below the 900 s limit; an unfinished run is inconclusive (non 0/1)
timeout -k 5 880 "$PY" -B "checks/$1.py"
exit $?
