#!/bin/bash
# check.sh <property> [quick|thorough]
cd "$(dirname "$(realpath "$0")")"
. /opt/vp/env.sh
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH=${VERIF_SRC:+$VERIF_SRC:}$PWD:$PYTHONPATH
exec $PY -W ignore -m checks "$1"
