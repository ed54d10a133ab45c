#!/bin/bash
# check.sh <property> [--tier quick|thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
exec /opt/veriftools/pyvenv/bin/python -W ignore -m symx.main "$@"
