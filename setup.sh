#!/bin/bash
# Prepares the (git-ignored) Hypothesis unpack directory.  run_check.sh does the
# same on demand, so this is only a warm-up and a sanity check.
HERE=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=/repo:/opt/vp/compat:$HERE PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -W ignore -c "
from pbt import boot; boot.ensure_hypothesis()
import hypothesis, numpy, scipy, openmdao.api
print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__)"
