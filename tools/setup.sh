#!/bin/bash
# Nothing to compile: checks import /repo's working tree. Make sure it imports.
cd "$(dirname "$(realpath "$0")")/.."
. /opt/vp/env.sh
export PYTHONPATH=$PWD:$PYTHONPATH
mkdir -p evidence out
$PY -W ignore -c "from mc import boot; boot.init(); import checks; print('ok')"
