#!/bin/bash
# run_check.sh <PROPERTY> [--tier quick|thorough] [--replay FILE] [--facet NAME]
# Decides one property against the code in /repo (or $VERIF_REPO while developing).
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export PYTHONPATH=$REPO:/opt/vp/compat:$HERE
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
unset OPENMDAO_TEST_DOCS OPENMDAO_FORCE_CHECK_SETUP OPENMDAO_TRACE OPENMDAO_REPORT OPENMDAO_RECORDERS
PY=/opt/venv/bin/python
exec "$PY" -W ignore -m pbt.main "$@"
