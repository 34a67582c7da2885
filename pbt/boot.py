"""Makes Hypothesis importable without touching the venv that runs OpenMDAO.

The pre-installed wheels are unpacked into /verif/.deps (git-ignored).  The
directory is appended to sys.path, so the venv's numpy/scipy/networkx win.
"""
import glob
import os
import shutil
import sys
import tempfile
import zipfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = os.path.join(HERE, '.deps')
WHEELS = '/opt/veriftools/wheels'
SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def ensure_hypothesis():
    if not os.path.isdir(os.path.join(DEPS, 'hypothesis')):
        tmp = tempfile.mkdtemp(prefix='.deps-', dir=HERE)
        wheels = (glob.glob(os.path.join(WHEELS, 'hypothesis-*cp312-cp312*x86_64*.whl')) +
                  glob.glob(os.path.join(WHEELS, 'sortedcontainers-*.whl')))
        if len(wheels) >= 2:
            for w in wheels:
                with zipfile.ZipFile(w) as z:
                    z.extractall(tmp)
        else:
            for n in os.listdir(SITE):
                if n in ('hypothesis', 'sortedcontainers') or n.startswith('_hypothesis'):
                    src = os.path.join(SITE, n)
                    dst = os.path.join(tmp, n)
                    (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, dst)
        try:
            os.rename(tmp, DEPS)
        except OSError:                      # somebody else was faster
            shutil.rmtree(tmp, ignore_errors=True)
    if DEPS not in sys.path:
        sys.path.append(DEPS)
