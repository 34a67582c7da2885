#!/usr/bin/env python3
"""Develop and verify planted bugs in scratch copies of /repo.

  plant.py new ID             scratch copy /tmp/plant/ID to edit
  plant.py save ID            write seeded/ID/patch.diff from the copy, then verify
  plant.py verify ID [...]    apply patch.diff to a fresh copy and verify
     (demo ok on clean, demo fails on patched, stable tests pass, check catches it)
"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = '/tmp/plant'

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def copy(pid):
    d = '%s/%s' % (ROOT, pid)
    os.makedirs(ROOT, exist_ok=True)
    if os.path.exists(d):
        shutil.rmtree(d)
    sh('cp -a /repo %s' % d)
    sh('git -C %s checkout -q -- .' % d)
    return d

def tests(d):
    out = d + '.junit.xml'
    env = dict(os.environ, HOME='/root', PYTHONPATH='%s:/opt/vp/compat' % d, PYTHONDONTWRITEBYTECODE='1',
               PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', TMPDIR=d + '.tmp')
    os.makedirs(d + '.tmp', exist_ok=True)
    sh('/opt/venv/bin/python -m pytest -q -W ignore --tb=short -p no:cacheprovider --timeout=300 '
       '--continue-on-collection-errors -n 8 --dist loadfile -o junit_family=xunit2 --junitxml=%s openmdao mpitest' % out,
       cwd=d, env=env)
    res = d + '.res.json'
    sh('/usr/bin/python3 /opt/vp/results.py %s junit:%s' % (res, out))
    ok = set(json.load(open(res))['passed'])
    miss = sorted(set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - ok)
    for p in (out, res):
        os.remove(p)
    shutil.rmtree(d + '.tmp', ignore_errors=True)
    return miss

def verify(pid, skip_tests=False):
    sd = os.path.join(HERE, 'seeded', pid)
    meta = json.load(open(sd + '/meta.json'))
    d = copy(pid)
    try:
        r = sh('bash %s/demo.sh' % sd, cwd=d)
        good = r.returncode == 0
        print(pid, 'demo clean:', 'ok' if good else 'FAILS\n' + r.stdout[-1500:])
        r = sh('git apply %s/patch.diff' % sd, cwd=d)
        if r.returncode:
            print(pid, 'patch does not apply', r.stdout); return False
        r = sh('bash %s/demo.sh' % sd, cwd=d)
        bad = r.returncode != 0
        print(pid, 'demo patched:', 'fails (ok): ' + ' | '.join(r.stdout.strip().splitlines()[-1:])[:300] if bad else 'PASSES - bug not shown')
        miss = [] if skip_tests else tests(d)
        print(pid, 'stable tests missing:', miss[:5])
        env = dict(os.environ, VERIF_REPO=d, VERIF_SEED='1')
        r = sh('%s/run_check.sh %s' % (HERE, meta['property']), env=env)
        caught = r.returncode == 1 and 'VIOLATION property=%s' % meta['property'] in r.stdout
        print(pid, 'check %s:' % meta['property'], 'CAUGHT' if caught else 'MISSED rc=%s' % r.returncode,
              [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'facet' in l][:3])
        return good and bad and not miss, caught
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == '__main__':
    what, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith('--')]
    for pid in ids:
        if what == 'new':
            print(copy(pid))
        else:
            sd = os.path.join(HERE, 'seeded', pid)
            if what == 'save':
                os.makedirs(sd, exist_ok=True)
                diff = sh('git diff', cwd='%s/%s' % (ROOT, pid)).stdout
                assert diff.strip()
                open(sd + '/patch.diff', 'w').write(diff)
            print(pid, verify(pid, '--no-tests' in sys.argv))
