"""C30: profiling counts every call where it was made and leaves results alone."""
import importlib
import io
import json
import os
import shutil
import sys
import types
from contextlib import redirect_stdout

import numpy as np
from hypothesis import strategies as st

from pbt.core import Facet, Scratch, check
from pbt.derivs import MASKS, pick
from pbt.models import gen_model
from pbt.props.c02 import connected_indeps
from pbt.props.c24 import Boom, Live, labels

ASSUMPTIONS = ['serial execution (no MPI); several ranks are emulated by copies of the raw files', 'profiling is set up once per process (the module is loaded anew for every case)',
               'times are only required to be consistent with each other (to 2 ms and 0.1 %)']

OPS = ['run', 'run', 'once', 'fwd', 'rev', 'fd', 'partials', 'fail', 'fail', 'start', 'start', 'stop', 'setup']


@st.composite
def op(draw):
    return dict(op=draw(st.sampled_from(OPS)), k=draw(st.integers(0, 40)), m=draw(MASKS), n=draw(MASKS), inner=draw(st.sampled_from([0, 0, 0, 1, 2, 3])))


@st.composite
def cases(draw):
    cyc = draw(st.integers(0, 3)) == 0
    if cyc:
        model = draw(gen_model(max_comps=5, min_comps=3, impl=15, cyclic=True, scatter=True, mild=True, groupkinds=False))
    else:
        model = draw(gen_model(max_comps=5, min_comps=2, kinds=('lin', 'mf', 'exec', 'fd', 'cs'), impl=15, mild=True))
    return dict(models=[model], cyclic=cyc, gmres=draw(st.booleans()), impl='basic', groupfd=draw(st.integers(0, 4)) == 0, ops=draw(st.lists(op(), min_size=3, max_size=8)),
                early=draw(st.booleans()), started=draw(st.integers(0, 3)) > 0, top=draw(st.sampled_from(['problem', 'problem', 'problem', 'root'])), recorder=draw(st.booleans()),
                ranks=draw(st.integers(1, 3)), methods=draw(st.sampled_from([None, None, None, 'few'])), title=draw(st.sampled_from(['T', 'my title'])))


class Counter(object):
    """Independent record of the calls that are made while it is active."""

    def __init__(self):
        self.active, self.stack, self.calls = False, [], {}

    def wrap(self, obj, meth, name):
        inner = getattr(obj, meth, None)
        if inner is None:
            return
        label = []          # an instance is named when it is first called

        def call(self_, *args, **kwargs):
            if not self.active:
                return inner(*args, **kwargs)
            label[:] = label or [name(obj) + '.' + meth]
            self.stack.append(label[0])
            key = tuple(self.stack)
            self.calls[key] = self.calls.get(key, 0) + 1
            try:
                return inner(*args, **kwargs)
            finally:
                self.stack.pop()
        call.__name__ = meth
        setattr(obj, meth, types.MethodType(call, obj))

    def wrap_all(self, prob, spec):
        from openmdao.api import Component, Group
        few = spec['methods'] == 'few'

        def plain(obj):
            return getattr(obj, 'pathname', '<%s>' % type(obj).__name__)

        path = plain
        if spec['top'] == 'problem':
            for meth in ('run',) if few else ('setup', 'run', 'calc_gradient'):
                self.wrap(prob, meth, plain)
            managers = [prob.driver.recorders]
        else:
            managers = []
        for s in [prob.root] + list(prob.root.subsystems(recurse=True)):
            for meth in ('solve_nonlinear',) if few else ('solve_nonlinear', 'apply_nonlinear', 'solve_linear', 'apply_linear', 'fd_jacobian', 'linearize'):
                self.wrap(s, meth, path)
            if isinstance(s, Component) and not few:
                self.wrap(s, 'complex_step_jacobian', path)
            if isinstance(s, Group):
                if not few:
                    self.wrap(s, '_transfer_data', path)
                for solver in (s.ln_solver, s.nl_solver):
                    self.wrap(solver, 'solve', plain)
                    managers.append(solver.recorders)
        for m in managers:
            if m._recorders and not few:
                for meth in ('record_iteration', 'record_derivatives'):
                    self.wrap(m, meth, plain)


class Program(Live):
    """The same operations, with or without profiling."""

    def __init__(self, spec):
        self.toggle = None
        super(Program, self).__init__(spec, 0)
        if spec['recorder']:
            from openmdao.api import InMemoryRecorder
            self.prob.driver.add_recorder(InMemoryRecorder())
            self.prob.root.nl_solver.add_recorder(InMemoryRecorder())

    def factory(self, model, ci, flog):
        comp = super(Program, self).factory(model, ci, flog)
        inner = comp.solve_nonlinear

        def solve_nonlinear(params, unknowns, resids):
            if self.toggle:
                self.toggle()
            inner(params, unknowns, resids)
        comp.solve_nonlinear = solve_nonlinear
        return comp

    def do(self, o):
        """Returns something to compare."""
        m, prob, name = self.m, self.prob, o['op']
        out = {}
        self.boom[0] = 1 + o['k'] if name == 'fail' else 0
        try:
            if name == 'setup':
                self.setup()
            elif name == 'run' or name == 'fail' and o['n'] % 2:
                prob.run()
            elif name == 'once':
                prob.run_once()
            elif name == 'partials':
                data = prob.check_partial_derivatives(out_stream=None)
                for comp in data:
                    for key in data[comp]:
                        for kind in sorted(data[comp][key]):
                            if kind.startswith('J_'):
                                out[comp, key, kind] = np.array(data[comp][key][kind]).tobytes()
            elif name in ('fwd', 'rev', 'fd', 'fail'):
                cand = connected_indeps(m)
                if cand:
                    wrt, of = pick(cand, o['m']), pick(m.unknown_keys(), o['n'])
                    mode = name if name != 'fail' else ['fwd', 'rev', 'fd'][o['k'] % 3]
                    out['J'] = prob.calc_gradient([m.root_name(k) for k in wrt], [m.root_name(k) for k in of], mode=mode, return_format='array').tobytes()
        except Boom:
            out['failed'] = True
        finally:
            self.boom[0] = 0
        out.update(self.snapshot())
        return out


def flatten(node, path, out):
    for kid in node['children']:
        p = path + (kid['name'],)
        check(p not in out, 'the tree has two nodes for %r', p)
        out[p] = kid
        flatten(kid, p, out)


def run(spec, log):
    from openmdao.util import profile
    profile = importlib.reload(profile)
    plain, live = Program(spec), Program(spec)
    labels(live.m, log)
    count = Counter()
    finish = []

    class AtExit(object):
        @staticmethod
        def register(f, *args, **kwargs):
            finish.append(lambda: f(*args, **kwargs))
            return f
    saved = profile.atexit
    profile.atexit = AtExit
    with Scratch():
        try:
            few = None
            if spec['methods'] == 'few':
                from openmdao.api import Problem
                from openmdao.core.system import System
                from openmdao.solvers.solver_base import SolverBase
                few = {'run': (Problem,), 'solve_nonlinear': (System,), 'solve': (SolverBase,)}
                log.label('own methods')

            def attach():
                count.wrap_all(live.prob, spec)
                os.mkdir('out')
                profile.setup(live.prob if spec['top'] == 'problem' else live.prob.root, prof_dir='out', methods=few)
            if spec['early']:
                attach()
            else:
                live.setup()
                attach()
            times = dict(inner=False)

            def switch(on):
                (profile.start if on else profile.stop)()
                count.active = on
            if spec['started']:
                switch(True)
            if spec['early']:
                live.setup()
            plain.setup()
            failed = 0
            for n, o in enumerate(spec['ops']):
                if o['op'] == 'start' or o['op'] == 'stop':
                    with redirect_stdout(io.StringIO()):
                        switch(o['op'] == 'start')
                    continue
                left = [o['inner'] * 2]
                if o['inner']:
                    def toggle():
                        left[0] -= 1
                        if left[0] == 0:
                            times['inner'] = True
                            switch(not count.active)
                    live.toggle = toggle
                got = live.do(o)
                live.toggle = None
                want = plain.do(o)
                failed += 'failed' in want and count.active
                check(set(got) == set(want), 'operation %d (%s) gives %s with profiling, %s without', n, o['op'], sorted(map(str, got)), sorted(map(str, want)))
                for k in want:
                    check(got[k] == want[k], 'operation %d (%s): %r is not the same with profiling', n, o['op'], k)
            if failed:
                log.label('failure under profiling')
            if times['inner']:
                log.label('switched inside a run')
            check(len(finish) == 1, '%d functions to be called at exit', len(finish))
        finally:
            profile.atexit = saved
            for f in finish:
                f()
            profile = importlib.reload(profile)         # closes the raw file, as the end of the process does
        judge(spec, log, profile, count, times)


def judge(spec, log, profile, count, times):
    check(sorted(os.listdir('out')) == ['funcs_prof_raw.0', 'prof_raw.0'], 'files are %r', sorted(os.listdir('out')))
    if count.calls:
        log.nontrivial(max(len(k) for k in count.calls) > 2)
    files = ['out/prof_raw.0']
    for r in range(1, spec['ranks']):
        shutil.copy('out/prof_raw.0', 'out/prof_raw.%d' % r)
        shutil.copy('out/funcs_prof_raw.0', 'out/funcs_prof_raw.%d' % r)
        files.append('out/prof_raw.%d' % r)
    for flist in (files[:1], files):
        want = {}
        for r, f in enumerate(flist):
            for key, n in count.calls.items():
                want[tuple(k + '.%d' % r for k in key) if len(flist) > 1 else key] = n
        tree, totals = profile.process_profile(flist)
        got = {}
        flatten(tree, (), got)
        check(sorted(got) == sorted(want), 'the profile of %d files has calls that were not made %r, and lacks %r', len(flist), sorted(set(got) - set(want))[:6], sorted(set(want) - set(got))[:6])
        sums = {}
        for key, n in want.items():
            check(got[key]['count'] == n, '%r was called %d times, the profile says %d', key, n, got[key]['count'])
            sums[key[-1]] = sums.get(key[-1], 0) + n
        check(sorted(totals) == sorted(sums), 'totals are for %r, expected %r', sorted(totals), sorted(sums))
        slack = 2e-3
        for name, n in sums.items():
            check(totals[name]['count'] == n, '%r was called %d times, the totals say %d', name, n, totals[name]['count'])
            t = sum(got[k]['time'] for k in got if k[-1] == name)
            check(abs(totals[name]['time'] - t) <= 1e-9 + 1e-6 * abs(t), 'total time of %r is %r, its nodes have %r', name, totals[name]['time'], t)
        for key, node in got.items():
            check(node['tot_count'] == sums[key[-1]] and abs(node['tot_time'] - totals[key[-1]]['time']) < 1e-9, 'node %r has the totals %r, %r', key, node['tot_count'], node['tot_time'])
            inside = sum(k['time'] for k in node['children'])
            check(inside <= node['time'] * 1.001 + slack, 'calls made by %r took %r s, longer than itself, %r s', key, inside, node['time'])
        if not times['inner']:
            top = sum(k['time'] for k in tree['children'])
            check(top <= tree['tot_time'] * 1.001 + slack, 'the profiled calls took %r s, longer than profiling was active, %r s', top, tree['tot_time'])
        # command line
        argv = sys.argv
        try:
            sys.argv = ['proftotals', '-o', 'totals.txt'] + flist
            profile.prof_totals()
            sys.argv = ['view_profile', '--noshow', '-t', spec['title']] + flist
            profile.prof_view()
        finally:
            sys.argv = argv
        with open('totals.txt') as f:
            rows = [line.strip().rsplit(', ', 2) for line in f if line.count(', ') >= 2 and not line.startswith('Function Name')]
        seen = dict((r[0], (int(r[2]), float(r[1]))) for r in rows)
        grand = {}
        for name, n in sums.items():
            check(seen.get(name, (None,))[0] == n, 'proftotals says %r for %r, it was called %d times', seen.get(name), name, n)
            g = name.split('.')[-1]
            grand[g] = grand.get(g, 0) + n
        for g in grand:
            check(seen.get(g, (None,))[0] == grand[g], 'proftotals says %r in all for %r, expected %d', seen.get(g), g, grand[g])
        with open('profile_icicle.html') as f:
            page = f.read()
        check(json.dumps(tree) in page and spec['title'] in page, 'the page does not show the data of the profile')
    out = io.StringIO()
    with redirect_stdout(out):
        profile.prof_dump('out/prof_raw.0', include_tstamp=False)
    dumped = {}
    for line in out.getvalue().splitlines():
        key = tuple(line.rsplit(' ', 2)[0].split(','))
        dumped[key] = dumped.get(key, 0) + 1
    check(dumped == count.calls, 'the dump has other calls than were made')


FACETS = [
    Facet('calls', cases, run, 160, rule='three or more levels of profiled calls'),
]
