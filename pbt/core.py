"""Facets, violations and the per-shard search loop.

A *facet* is one executable check of a property: a Hypothesis strategy that
draws a plain-JSON description of a case (a model, an input, or an operation
history) and a function that executes the description against OpenMDAO and
against an independent oracle.  Because a case is plain data, a shrunk failure
is saved as JSON and can be re-run without Hypothesis.
"""
import hashlib
import io
import json
import os
import signal
import sys
import tempfile
import time
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    """The code under test broke the property."""


class HarnessError(Exception):
    """The machinery itself failed."""


class CaseHang(BaseException):
    pass


class Log(object):
    """Collects classification of the case being executed."""

    def __init__(self):
        self.labels = []
        self.is_nontrivial = False

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True


class Facet(object):
    def __init__(self, name, strategy, run, quick, thorough=None, rule='', cpu_limit=120):
        self.name = name
        self.strategy = strategy      # zero-argument callable returning a strategy
        self.run = run                # run(spec, log)
        self.quick = quick
        self.thorough = thorough or quick * 12
        self.rule = rule
        self.cpu_limit = cpu_limit


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def close(actual, expected, rtol=1e-9, atol=1e-9):
    import numpy as np
    a = np.asarray(actual, dtype=float)
    e = np.asarray(expected, dtype=float)
    if a.shape != e.shape:
        return False
    if a.size == 0:
        return True
    return bool(np.all((np.abs(a - e) <= atol + rtol * np.abs(e)) | (a == e) |
                       (np.isnan(a) & np.isnan(e))))


def check_close(actual, expected, what, rtol=1e-9, atol=1e-9):
    import numpy as np
    try:
        a = np.asarray(actual, dtype=float)
    except (TypeError, ValueError):
        raise Violation('%s: got a non-numeric value %r' % (what, actual))
    e = np.asarray(expected, dtype=float)
    if a.shape != e.shape:
        raise Violation('%s: shape %s, expected %s (got %s, expected %s)' %
                        (what, a.shape, e.shape, a.tolist(), e.tolist()))
    if not close(a, e, rtol, atol):
        raise Violation('%s: got %s, expected %s' % (what, a.tolist(), e.tolist()))


def canon(spec):
    return json.dumps(spec, sort_keys=True)


def _harness_only(tb):
    for f in traceback.extract_tb(tb):
        fn = os.path.abspath(f.filename)
        if fn.startswith(os.path.join(REPO, 'openmdao')):
            return False
    return True


def _on_prof(signum, frame):
    raise CaseHang()


def execute(facet, spec):
    """Run one case.  Returns (log, failure-message or None)."""
    log = Log()
    old_out, old_err, old_cwd = sys.stdout, sys.stderr, os.getcwd()
    signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, facet.cpu_limit)
    sys.stdout = sys.stderr = io.StringIO()
    try:
        facet.run(spec, log)
        return log, None
    except Violation as err:
        return log, str(err)
    except CaseHang:
        return log, ('no answer after %s s of CPU time on a case that normally takes '
                     'milliseconds' % facet.cpu_limit)
    except (HarnessError, MemoryError, ImportError, NameError) as err:
        if isinstance(err, (HarnessError, MemoryError)) or _harness_only(err.__traceback__):
            raise HarnessError('facet %s: %s\n%s' % (facet.name, err, traceback.format_exc()))
        return log, _exc_text(err)
    except Exception as err:
        return log, _exc_text(err)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        sys.stdout, sys.stderr = old_out, old_err
        os.chdir(old_cwd)


def _exc_text(err):
    tb = traceback.extract_tb(err.__traceback__)
    where = '; '.join('%s:%s in %s' % (os.path.relpath(f.filename, REPO)
                                       if f.filename.startswith(REPO)
                                       else os.path.basename(f.filename),
                                       f.lineno, f.name) for f in tb[-4:])
    return 'unexpected %s: %s [%s]' % (type(err).__name__, str(err)[:500], where)


class Scratch(object):
    """A private scratch directory, current while the block runs."""

    def __enter__(self):
        self.old = os.getcwd()
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix='pbtcase-'))
        os.chdir(self.dir)
        return self.dir

    def __exit__(self, *exc):
        import shutil
        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)


class _Fail(Exception):
    pass


def search(facet, n, seed, deadline, max_samples=3):
    """Generated search over one facet.  Returns a result dict."""
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 60

    res = dict(facet=facet.name, evaluations=0, distinct=[], labels={}, samples=[],
               failure=None, inconclusive=0, seed=seed)
    state = dict(best=None, fails=0)
    seen = set()

    def body(spec):
        if state['best'] is None and time.time() > deadline:
            res['inconclusive'] += 1
            return
        text = canon(spec)
        spec = json.loads(text)
        log, failure = execute(facet, spec)
        if state['best'] is None:
            res['evaluations'] += 1
            for lb in set(log.labels):
                res['labels'][lb] = res['labels'].get(lb, 0) + 1
            if log.is_nontrivial:
                h = hashlib.sha1(text.encode()).hexdigest()[:16]
                if h not in seen:
                    seen.add(h)
                    if len(res['samples']) < max_samples and len(text) < 4000:
                        res['samples'].append(json.loads(text))
        if failure is not None:
            state['fails'] += 1
            if state['best'] is None or (len(text), text) <= (len(state['best'][0]), state['best'][0]):
                state['best'] = (text, failure)
            raise _Fail('case failed')

    test = hypothesis.given(facet.strategy())(body)
    test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                    report_multiple_bugs=False,
                    phases=(Phase.generate,) if os.environ.get('PBT_NOSHRINK') else (Phase.generate, Phase.shrink),
                    suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                           HealthCheck.large_base_example],
                    verbosity=hypothesis.Verbosity.quiet)(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except HarnessError:
        raise
    except BaseException as err:
        if state['best'] is None:
            raise HarnessError('facet %s: %s: %s\n%s' % (facet.name, type(err).__name__, err,
                                                        traceback.format_exc()))
    if state['best'] is not None:
        res['failure'] = dict(spec=json.loads(state['best'][0]), message=state['best'][1])
    res['distinct'] = sorted(seen)
    return res
