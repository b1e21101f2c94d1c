#!/bin/bash
# bash run.sh <ID> [quick|thorough]  |  bash run.sh --replay FILE  |  bash run.sh --setup
# Fixed environment; the interpreter is the repository's own (/opt/venv).
cd "$(dirname "$0")" || exit 3
export HOME=/root LANG=C.UTF-8 PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg RADVEL_DATADIR="${VERIF_REPO:-/repo}/example_data"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONWARNINGS=ignore
unset PYTHONPATH
if [ "$1" = --setup ]; then
    bash /opt/vp/build.sh --ext-only || exit 3
    exec /opt/venv/bin/python -c 'import sys; sys.path.insert(0, "."); from vlib import boot
boot.add_hypothesis(); boot.load_radvel(); import hypothesis; print("ready: hypothesis", hypothesis.__version__)'
fi
exec /opt/venv/bin/python check.py "$@"
