# Sourced by check, replay and setup.
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root} PYTHONPATH=$VERIF PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=${PYTHONHASHSEED:-0}
export MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/var/mpl OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
PY=/opt/venv/bin/python
cd "$VERIF" || exit 2
