#!/bin/bash
# check.sh ID [quick|thorough] [extra run.py arguments]
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1
unset PYTHONPATH
T=$(mktemp -d /tmp/vcheck.XXXXXX) || exit 2
export MPLCONFIGDIR=$T/mpl NUMBA_CACHE_DIR=$T/numba VSCRATCH=$T
mkdir -p "$MPLCONFIGDIR"
id=$1; shift
tier=${VERIF_TIER:-quick}
case "$1" in quick|thorough) tier=$1; shift;; esac
VERIF_TIER=$tier /opt/venv/bin/python -W ignore -m vlib.run "$id" "$@" 2>&1 | grep -v "fig import only"
rc=${PIPESTATUS[0]}
rm -rf "$T"
exit $rc
