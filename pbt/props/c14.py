"""C14: predetermined-run drivers execute each case faithfully and in isolation."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Facet, check, close
from pbt.proc import supervised

ASSUMPTIONS = ['every case of one run sets the same design variables', 'a run in parallel subprocesses is allowed to '
               'return its cases in any order, and after a case with an unexpected exception to stop early without '
               'raising']

VALS = st.sampled_from([-3.0, -2.0, -1.0, -0.5, 0.25, 1.0, 1.5, 2.0, 3.0, 4.0])


class Boom(Exception):
    """An exception that cannot be made from one argument."""

    def __init__(self, a, b):
        super(Boom, self).__init__(a, b)
        self.a, self.b = a, b


HARD = {'value': ValueError('bad value'), 'key': KeyError('k'), 'boom': Boom(1, 'two'), 'zero': None}


@st.composite
def cases(draw, par=False):
    n = draw(st.sampled_from([0, 1, 2, 3, 3, 5, 8] if not par else [0, 1, 2, 3, 5, 8, 13, 20]))
    size = draw(st.sampled_from([1, 3, 3, 4] if not par else [1, 3, 4, 2000, 8000]))
    sub = draw(st.sampled_from(['xv', 'xv', 'x', 'v']))
    runs = []
    for _ in range(n):
        runs.append([draw(VALS), [draw(VALS) for _ in range(min(size, 4))], draw(st.integers(0, 3))])
    soft = draw(st.lists(st.integers(0, max(n - 1, 0)), max_size=3, unique=True))
    hard = []
    if draw(st.integers(0, 3)) == 0:
        hard = draw(st.lists(st.integers(0, max(n - 1, 0)), min_size=1, max_size=2, unique=True))
    return dict(n=n, size=size, sub=sub, cases=runs, soft=soft, hard=hard,
                exc=draw(st.sampled_from(sorted(HARD))), soft_at=draw(st.sampled_from(['early', 'late', 'solver'])),
                driver=draw(st.sampled_from(['case', 'case', 'case', 'uniform', 'full', 'lhc'])),
                scale=draw(st.booleans()), auto=draw(st.booleans()), recorder=draw(st.booleans()),
                coupled=draw(st.booleans()), form=draw(st.sampled_from(['list', 'tuple', 'zip'])),
                order=draw(st.integers(0, 5)), runs=draw(st.sampled_from([1, 1, 2])),
                par=draw(st.integers(2, 4)) if par else 1, lb=draw(st.booleans()),
                param=draw(st.booleans()), prom=draw(st.booleans()), feed=draw(st.sampled_from([0, 0, 4, 12])) if par else 0,
                idle=draw(st.lists(st.integers(0, 3), max_size=3, unique=True)) if par else [])


def model(spec):
    """The problem, the list its model appends its inputs to, and the desvar names."""
    from openmdao.api import (Problem, Group, Component, IndepVarComp, CaseDriver, UniformDriver, FullFactorialDriver,
                              LatinHypercubeDriver, AnalysisError, NLGaussSeidel, ScipyGMRES, ExecComp)
    seen = []
    size, prom = spec['size'], spec['prom']

    class Look(Component):
        def __init__(self):
            super(Look, self).__init__()
            self.add_param('x', 0.0)
            self.add_param('v', np.zeros(size))
            self.add_param('d', 7.0)
            self.add_param('o', 0, pass_by_obj=True)
            self.add_output('f', 0.0)
            self.add_output('w', np.zeros(size))
            self.add_output('tag', '', pass_by_obj=True)
            self.add_output('g', 0.0)       # 1 for a case that must not converge

        def solve_nonlinear(self, params, unknowns, resids):
            seen.append((float(params['x']), np.array(params['v']), params['o']))
            key = fingerprint(params['x'], params['v'], params['o'])
            if spec['soft_at'] == 'early' and key in spec['softkeys']:
                raise AnalysisError('soft failure')
            unknowns['f'] = params['x'] * 2.0 + np.sum(params['v']) + params['d']
            unknowns['w'] = params['v'] * params['x']
            unknowns['tag'] = 'o%s' % params['o']
            unknowns['g'] = 1.0 if spec['soft_at'] == 'solver' and key in spec['softkeys'] else 0.0
            if key in spec['hardkeys']:
                if spec['exc'] == 'zero':
                    1 // 0
                raise HARD[spec['exc']]
            if spec['soft_at'] == 'late' and key in spec['softkeys']:
                raise AnalysisError('soft failure')

    p = Problem(root=Group())
    root = p.root
    root.add('px', IndepVarComp('x', 0.5), promotes=['*'] if prom else [])
    sub = root.add('sub', Group())
    sub.add('pv', IndepVarComp('v', np.full(size, 0.125)))
    root.add('po', IndepVarComp('o', 0, pass_by_obj=True))
    look = root.add('look', Look(), promotes=['x', 'o', 'tag'] if prom else [])
    name = dict(x='x' if prom else 'px.x', v='sub.pv.v', o='po.o')
    if not prom:
        root.connect('px.x', 'look.x')
    root.connect('sub.pv.v', 'look.v')
    root.connect('po.o', 'o' if prom else 'look.o')
    if spec['coupled']:
        c = root.add('cyc', Group())
        c.add('a', ExecComp('a = x + 3.0*g*b + 1.2345*g', b=1.0))
        c.add('b', ExecComp('b = a'))
        c.connect('a.a', 'b.a')
        c.connect('b.b', 'a.b')
        root.connect(name['x'], 'cyc.a.x')
        root.connect('look.g', 'cyc.a.g')
        c.nl_solver = NLGaussSeidel()
        c.nl_solver.options['maxiter'] = 6
        c.nl_solver.options['err_on_maxiter'] = True
        c.ln_solver = ScipyGMRES()
    kw = dict(num_par_doe=spec['par'], load_balance=spec['lb'])
    n = spec['n']
    if spec['driver'] == 'uniform':
        p.driver = UniformDriver(num_samples=n, seed=3, **kw)
    elif spec['driver'] == 'lhc':
        p.driver = LatinHypercubeDriver(num_samples=max(n, 1), seed=3, **kw)
    elif spec['driver'] == 'full':
        p.driver = FullFactorialDriver(num_levels=max(n, 1), **kw)
    else:
        p.driver = CaseDriver(**kw)
    p.driver.options['auto_add_response'] = spec['auto']
    scaler, adder = (4.0, -1.0) if spec['scale'] else (1.0, 0.0)
    used = list(spec['sub'] if spec['driver'] == 'case' else 'x' if spec['driver'] == 'full' else 'xv')
    for k in used:
        if k == 'x':
            p.driver.add_desvar(name['x'], lower=-3.0, upper=4.0, scaler=scaler, adder=adder)
        elif k == 'v':
            p.driver.add_desvar(name['v'], lower=-3.0, upper=4.0, scaler=scaler, adder=adder)
        else:
            p.driver.add_desvar(name['o'])
    p.driver.add_objective('look.f')
    resp = ['look.w', 'tag' if prom else 'look.tag']
    if spec['param']:
        resp.append('look.v')
    if spec['coupled']:
        resp.append('cyc.b.b')
    if not spec['auto']:
        resp += [name[k] for k in used] + ['look.f']
    p.driver.add_response(resp)
    return p, seen, name, used, resp, (scaler, adder)


def fingerprint(x, v, o):
    return '%.6f/%.6f/%s' % (float(x), float(np.sum(np.asarray(v) * np.arange(1, len(v) + 1))), o)


def inputs(spec, case):
    x, v, o = case
    sub = spec['sub']
    vv = np.resize(np.array(v), spec['size']) if 'v' in sub else np.full(spec['size'], 0.125)
    return (x if 'x' in sub else 0.5), vv, (o if 'o' in sub else 0)


def the_error(spec):
    return ZeroDivisionError if spec['exc'] == 'zero' else type(HARD[spec['exc']])


def execute(spec, log=None):
    from openmdao.api import InMemoryRecorder
    spec = dict(spec)
    given = [inputs(spec, c) for c in spec['cases']]
    if spec['driver'] == 'case':
        spec['softkeys'] = [fingerprint(*given[i]) for i in spec['soft'] if i < spec['n']]
        spec['hardkeys'] = [fingerprint(*given[i]) for i in spec['hard'] if i < spec['n']]
        spec['softkeys'] = [k for k in spec['softkeys'] if k not in spec['hardkeys']]
    else:
        spec['softkeys'], spec['hardkeys'] = [], []
    p, seen, name, used, resp, (scaler, adder) = model(spec)
    if spec['driver'] == 'case':
        rows = []
        order = used[spec['order'] % len(used):] + used[:spec['order'] % len(used)]
        for x, v, o in given:
            vals = dict(x=(x + adder) * scaler, v=(v + adder) * scaler, o=o)
            case = [(name[k], vals[k]) for k in order]
            rows.append(case)
        if spec['form'] == 'tuple':
            rows = tuple(tuple(c) for c in rows)
        elif spec['form'] == 'zip':
            rows = [list(zip([n for n, _ in c], [v for _, v in c])) for c in rows]
        p.driver.cases = rows
    rec = None
    if spec['recorder']:
        rec = InMemoryRecorder()
        rec.options['record_params'] = True
        p.driver.add_recorder(rec)
    p.setup(check=False)
    par = spec['par'] > 1
    hardidx = [i for i in range(len(given)) if fingerprint(*given[i]) in spec['hardkeys']]
    for r in range(spec['runs']):
        del seen[:]
        if rec is not None:
            rec.reset()
        error = None
        try:
            p.run()
        except Exception as err:
            error = err
        if hardidx and not par:
            exp = the_error(spec)
            check(error is not None and type(error) is exp and (spec['exc'] == 'zero' or error is HARD[spec['exc']]),
                  'a case raised %s, but the run raised %r', exp.__name__, error)
            want = given[:hardidx[0]]
            ran = given[:hardidx[0] + 1]
        else:
            check(error is None, 'the run raised %r', error)
            want = ran = given
        if spec['driver'] != 'case' and not par:
            # whatever the design is, it is what the model was run with
            want = ran = list(seen)
            check(len(seen) == spec['n'] or spec['driver'] != 'uniform', '%d samples were run, expected %d',
                  len(seen), spec['n'])
        if not par:
            check(len(seen) == len(ran), 'the model ran %d times for %d cases', len(seen), len(ran))
            for i, (a, b) in enumerate(zip(seen, ran)):
                check(close(a[0], b[0], 1e-12, 1e-12) and close(a[1], b[1], 1e-12, 1e-12) and a[2] == b[2],
                      'case %d: the model ran with %s, the case says %s', i, a, b)
        got = list(p.driver.get_responses())
        iters = None if rec is None else rec.iters
        if spec['driver'] != 'case' and par:
            kw = dict(spec, par=1, runs=1, recorder=False)
            q, qseen = model(kw)[:2]
            q.setup(check=False)
            q.run()
            want = list(qseen)
        if iters is not None:
            check(len(iters) == len(got), '%d recorded cases, %d responses', len(iters), len(got))
            coords = [it['iter'] for it in iters]
            check(len(set(coords)) == len(coords), 'two cases share a coordinate: %s', coords)
        check_responses(spec, want, got, iters, name, used, resp, par, hardidx)
        again = list(p.driver.get_all_responses())
        check(len(again) == len(got), 'get_all_responses gives %d cases, get_responses %d', len(again), len(got))
    p.cleanup()
    return len(want), bool(spec['softkeys']), bool(hardidx)


def check_responses(spec, want, got, iters, name, used, resp, par, hardidx):
    names = set(resp) | set([name[k] for k in used] + ['look.f'])
    softkeys = spec['softkeys'] if spec['soft_at'] != 'solver' or spec['coupled'] else []
    left = list(range(len(want)))
    check(len(got) <= len(want), '%d responses for %d cases', len(got), len(want))
    if not (par and hardidx):
        check(len(got) == len(want), '%d responses for %d cases', len(got), len(want))
    for g, (responses, success, msg) in enumerate(got):
        d = dict(responses)
        check(set(d) == names and len(responses) == len(names), 'responses %s, expected %s', sorted(d), sorted(names))

        def same(i):
            x, v, o = want[i]
            return all(k not in used or close(d[name[k]], w, 1e-12, 1e-12) for k, w in (('x', x), ('v', v))) and \
                ('o' not in used or d[name['o']] == o)
        if par:
            hits = [i for i in left if same(i)]
            check(hits, 'response %d has inputs %s, which are those of no remaining case', g,
                  dict((k, np.ravel(d[name[k]])[:4]) for k in used))
            i = hits[0]
        else:
            i = left[0]
            check(same(i), 'response %d has inputs %s, the case has %s', g, dict((k, d[name[k]]) for k in used), want[i])
        left.remove(i)
        x, v, o = want[i]
        soft = fingerprint(x, v, o) in softkeys
        check(bool(success) == (not soft), 'case %d %s, recorded as success=%r (%s)', i,
              'failed' if soft else 'did not fail', success, msg[-200:])
        if soft:
            check('AnalysisError' in msg, 'the message of a failed case is %r', msg)
            continue
        check(msg == '', 'the message of a case without error is %r', msg)
        if par and hardidx:
            check(fingerprint(x, v, o) not in spec['hardkeys'], 'case %d raised an error but has a response', i)
        exp = {'look.f': 2.0 * x + np.sum(v) + 7.0, 'look.w': v * x, 'look.v': v, 'cyc.b.b': x}
        for n in names:
            if n in exp:
                check(close(d[n], exp[n], 1e-9, 1e-9), 'case %d: response %s is %s, expected %s', i, n,
                      np.ravel(d[n])[:6], np.ravel(exp[n])[:6])
        tag = [n for n in names if n.endswith('tag')][0]
        check(d[tag] == 'o%s' % o, 'case %d: response %s is %r, expected %r', i, tag, d[tag], 'o%s' % o)
        if iters is not None:
            it = iters[g]
            check(bool(it['success']) and close(it['unknowns']['look.f'], exp['look.f'], 1e-9, 1e-9) and
                  close(it['unknowns']['look.w'], exp['look.w'], 1e-9, 1e-9),
                  'case %d: recorded f=%s, expected %s', i, it['unknowns']['look.f'], exp['look.f'])


def note(spec, log, n, soft, hard):
    log.label(spec['driver'], 'soft' if soft else 'nosoft', 'hard:' + spec['exc'] if hard else 'nohard',
              'size%d' % spec['size'], 'coupled' if spec['coupled'] else 'flat')
    log.nontrivial(n > 1)


def schedule(spec):
    """Slow down the queues' feeder threads and the workers with given numbers (timings the OS may choose as well)."""
    import multiprocessing.queues as mq
    import os
    import time
    if spec['feed']:
        dumps = mq._ForkingPickler.dumps

        class Slow(mq._ForkingPickler):
            @classmethod
            def dumps(cls, obj, protocol=None):
                time.sleep(spec['feed'] / 1000.)
                return dumps(obj, protocol)
        mq._ForkingPickler = Slow
    get = mq.Queue.get

    def slow_get(self, *args, **kw):
        who = os.environ.get('OPENMDAO_WORKER_ID')
        if who is not None and int(who) in spec['idle']:
            time.sleep(0.03)
        return get(self, *args, **kw)
    mq.Queue.get = slow_get


def run_serial(spec, log):
    note(spec, log, *execute(spec))


def run_par(spec, log):
    def go():
        schedule(spec)
        return execute(spec)
    note(spec, log, *supervised(go))
    log.label('par%d' % spec['par'], 'n%d' % spec['n'])


FACETS = [Facet('serial', lambda: cases(), run_serial, 2500, rule='more than one case', cpu_limit=30),
          Facet('parallel', lambda: cases(par=True), run_par, 240, 4000, rule='more than one case', cpu_limit=60)]
