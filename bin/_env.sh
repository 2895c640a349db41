# Sourced by the commands: a private scratch directory and a fixed environment.
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
export PTERA_SCRATCH="$(mktemp -d /tmp/ptera-sim.XXXXXX)"
trap 'rm -rf -- "$PTERA_SCRATCH"' EXIT
export HOME="$PTERA_SCRATCH" LANG=C.UTF-8
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${PTERA_HASHSEED:-0}" PYTHONPATH="$VERIF"
export MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export NUMBA_CACHE_DIR="$PTERA_SCRATCH/numba" MPLCONFIGDIR="$PTERA_SCRATCH/mpl"
PY="${PTERA_PYTHON:-/opt/venv/bin/python}"
cd "$VERIF"
