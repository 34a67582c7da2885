"""C24: results depend on the current inputs only, never on the history."""
import copy
import io

import numpy as np
from hypothesis import strategies as st

from pbt.core import Facet, check, check_close
from pbt.derivs import MASKS, check_totals, pick
from pbt.models import Model, full, gen_model
from pbt.props.c01 import impl_of, labels, nlgs_configure
from pbt.props.c02 import connected_indeps

ASSUMPTIONS = ['serial execution (no MPI)', 'values of iterated models agree to 1e-7, of feed-forward models bit for bit with those of a fresh problem',
               'after total derivatives by finite differences the inputs of components keep the last perturbed point until the next run (finding C24-fd-params)',
               'no problem is created between setup and run of another one (finding C24-locked)']

OPS = ['set', 'set', 'run', 'run', 'run', 'fwd', 'rev', 'fd', 'partials', 'totals', 'garbage', 'setup', 'record', 'once', 'gc', 'reject', 'fail', 'dfail', 'dfail']


@st.composite
def op(draw):
    return dict(op=draw(st.sampled_from(OPS)), p=draw(st.integers(0, 1)), k=draw(st.integers(0, 40)), j=draw(st.integers(0, 40)), dict=draw(st.booleans()), m=draw(MASKS), n=draw(MASKS))


@st.composite
def feed(draw):
    kinds = draw(st.sampled_from([('lin', 'mf', 'exec'), ('lin', 'mf', 'exec'), ('lin', 'mf', 'exec', 'fd', 'cs')]))
    models = [draw(gen_model(max_comps=5, min_comps=2, kinds=kinds, impl=15, mild=True)) for _ in range(draw(st.integers(1, 2)))]
    return dict(models=models, same=draw(st.booleans()), ops=draw(st.lists(op(), min_size=4, max_size=10)), impl=draw(st.sampled_from(['basic', 'basic', 'petsc'])), gmres=draw(st.booleans()),
                groupfd=draw(st.integers(0, 3)) == 0)


@st.composite
def cyclic(draw):
    models = [draw(gen_model(max_comps=5, min_comps=3, impl=15, cyclic=True, scatter=True, mild=True, groupkinds=False)) for _ in range(draw(st.integers(1, 2)))]
    return dict(models=models, same=draw(st.booleans()), ops=draw(st.lists(op(), min_size=4, max_size=8)), impl='basic', cyclic=True)


class Boom(Exception):
    """Raised by a component on request."""


class Live(object):
    """A problem under test with what is known about it."""

    def __init__(self, spec, k):
        self.m = m = Model(copy.deepcopy(spec['models'][k]))
        self.spec = spec
        self.exact = all(c['kind'] in ('indep', 'lin', 'mf', 'exec') for c in m.comps) and not spec.get('cyclic')
        self.fdkinds = any(c['kind'] in ('fd',) for c in m.comps) or spec.get('groupfd')
        self.boom = [0]
        self.prob = m.build(configure=self.configure(), impl=impl_of(spec['impl']), setup=False, comp_factory=self.factory)
        self.recorders = []

    def factory(self, model, ci, flog):
        from pbt.models import make_comp
        comp = make_comp(model, ci, flog)
        kind = model.comps[ci]['kind']
        if kind in ('lin', 'mf', 'fd', 'cs'):
            inner, boom = comp.solve_nonlinear, self.boom

            def solve_nonlinear(params, unknowns, resids):
                if boom[0]:
                    boom[0] -= 1
                    if not boom[0]:
                        raise Boom('on request')
                inner(params, unknowns, resids)
            comp.solve_nonlinear = solve_nonlinear
        return comp

    def configure(self):
        m = self.m
        if self.spec.get('cyclic'):
            return nlgs_configure(m)
        from openmdao.api import ScipyGMRES

        def conf(node, g):
            if node['_path'] == () and self.spec['gmres']:
                g.ln_solver = ScipyGMRES()
            g.deriv_options['form'] = 'central'
            g.deriv_options['step_size'] = 1e-6
            if self.spec['groupfd'] and len(node['_path']) == 1 and not any(m.comps[ci]['kind'] == 'indep' for ci in m._members(node)):
                g.deriv_options['type'] = 'fd'
        return conf

    def setup(self):
        self.prob.setup(check=False)
        self.inputs = self.m.input_defaults()
        self.current = False      # the outputs belong to the inputs
        self.stale = False        # inputs of components were left perturbed

    def snapshot(self, params=True):
        snap = {}
        for key in self.m.unknown_keys():
            snap['value of ' + self.m.abs_name(key)] = np.array(self.prob[self.m.root_name(key)]).tobytes()
        if params:
            for key in self.m.param_keys():
                snap['input ' + self.m.abs_name(key)] = np.array(self.m.comp_of(self.prob, key[0]).params[self.m.comps[key[0]]['ins'][key[2]]['n']]).tobytes()
        return snap



def perturbed(m, op_, inputs):
    keys = sorted(inputs)
    key = keys[op_['k'] % len(keys)]
    v = inputs[key] * 0.75 + (op_['j'] - 20) / 16.0 + 0.125 * np.arange(len(inputs[key]))
    return key, v


def run_history(spec, log):
    # every problem is created before the first setup (finding C24-locked)
    models = list(spec['models'])
    if spec['same'] and len(models) == 1:
        models = models * 2
        log.label('two problems of one model')
    spec = dict(spec, models=models)
    lives = []
    for k in range(len(models)):
        live = Live(spec, k)
        lives.append(live)
        labels(live.m, log)
    reference = [Live(spec, k) for k in range(len(models))]
    for live in lives + reference:
        live.setup()
    ran = derivs = 0
    for n, o in enumerate(spec['ops']):
        live = lives[o['p'] % len(lives)]
        ref = reference[o['p'] % len(lives)]
        others = [(x, x.snapshot()) for x in lives if x is not live]
        r, d = step(live, ref, o, 'operation %d (%s): ' % (n, o['op']), log)
        ran += r
        derivs += d
        for x, snap in others:
            same(snap, x.snapshot(), 'operation %d (%s) on another problem: ' % (n, o['op']))
    log.label('%d problems' % len(lives))
    log.nontrivial(ran >= 1 and derivs >= 1)


def same(before, after, what):
    for key in sorted(before):
        check(before[key] == after[key], '%s%s changed from %s to %s', what, key, np.frombuffer(before[key]).tolist(), np.frombuffer(after[key]).tolist())


def step(live, ref, o, what, log):
    """Performs one operation; returns (runs, derivative requests)."""
    m, prob, name = live.m, live.prob, o['op']
    if name == 'set':
        if not live.inputs:
            return 0, 0
        key, v = perturbed(m, o, live.inputs)
        before = live.snapshot()
        s = (m.comps[key[0]]['outs'] if key[1] == 'o' else m.comps[key[0]]['ins'])[key[2]]['s']
        prob[m.root_name(key)] = full(s, v)
        check_close(prob[m.root_name(key)], full(s, v), what + 'read back of %s' % m.abs_name(key), 0, 0)
        after = live.snapshot()
        mine = ('value of ' if key[1] == 'o' else 'input ') + m.abs_name(key)
        before.pop(mine, None)
        same(before, after, what)
        live.inputs[key] = v
        live.current = False
        return 0, 0
    if name == 'garbage':
        # whatever stands in an output before a run does not matter
        keys = [k for k in m.unknown_keys() if m.comps[k[0]]['kind'] != 'indep']
        if not keys:
            return 0, 0
        key = keys[o['k'] % len(keys)]
        c = m.comps[key[0]]['outs'][key[2]]
        size = m.off[(key[0], key[2])]
        v = np.arange(size[1] - size[0]) * 0.5 - (o['j'] - 20) / 8.0
        if not c.get('state') and o['j'] == 0 and not live.spec.get('cyclic'):
            v = v * np.nan
        prob[m.root_name(key)] = full(c['s'], v)
        live.current = False
        return 0, 0
    if name == 'setup':
        prob.setup(check=False)
        live.inputs = m.input_defaults()
        live.current = live.stale = False
        m_inputs = live.inputs
        for key, v in m_inputs.items():
            s = (m.comps[key[0]]['outs'] if key[1] == 'o' else m.comps[key[0]]['ins'])[key[2]]['s']
            check_close(prob[m.root_name(key)], full(s, v), what + 'initial %s' % m.abs_name(key), 0, 0)
        return 0, 0
    if name == 'record':
        from openmdao.api import InMemoryRecorder
        rec = InMemoryRecorder()
        rec.options['record_params'] = rec.options['record_resids'] = bool(o['k'] % 2)
        place = [prob.driver, prob.root.nl_solver][o['j'] % 2]
        place.add_recorder(rec)
        prob.setup(check=False)
        m.set_inputs(prob, live.inputs)
        live.current = live.stale = False
        return 0, 0
    if name == 'reject':
        # requests that are refused leave everything alone
        before = live.snapshot()
        for bad in (lambda: prob.calc_gradient(['no_such_variable'], [m.root_name(m.unknown_keys()[0])], mode='fwd'), lambda: prob['no_such_variable'],
                    lambda: prob.__setitem__('no_such_variable', 3.0)):
            try:
                bad()
            except Exception as err:
                check('no_such_variable' in str(err), '%serror does not name the variable: %r', what, err)
            else:
                check(False, '%sno_such_variable was accepted', what)
        same(before, live.snapshot(), what)
        return 0, 0
    if name in ('fail', 'dfail'):
        # a run or derivative request that fails half-way does not influence the next one, and keeps the inputs
        if name == 'dfail' and not live.current:
            prob.run()
        live.boom[0] = 1 + (o['k'] if name == 'dfail' else o['k'] % 3)
        kind = 'run'
        try:
            if name == 'fail':
                prob.run()
            else:
                kind = ['fwd', 'rev', 'fd', 'fd', 'partials', 'totals'][o['j'] % 6]
                cand = connected_indeps(m)
                if kind == 'partials':
                    prob.check_partial_derivatives(out_stream=None)
                elif kind == 'totals' and cand:
                    prob.check_total_derivatives(out_stream=None)
                elif cand:
                    wrt, of = pick(cand, o['m']), pick(m.unknown_keys(), o['n'])
                    prob.calc_gradient([m.root_name(k) for k in wrt], [m.root_name(k) for k in of], mode=kind, return_format='dict')
        except Boom:
            log.label('failed ' + kind)
        finally:
            live.boom[0] = 0
        live.current = False
        for key, v in live.inputs.items():
            s = (m.comps[key[0]]['outs'] if key[1] == 'o' else m.comps[key[0]]['ins'])[key[2]]['s']
            check_close(prob[m.root_name(key)], full(s, v), what + 'input %s after the failure' % m.abs_name(key), 0, 0)
        return 0, 0
    if name in ('run', 'once'):
        if name == 'run':
            prob.run()
        else:
            prob.run_once()
        live.current, live.stale = True, False
        U = m.ref_values(live.inputs)
        tol = 1e-7 if live.spec.get('cyclic') else 1e-9
        m.check_values(prob, U, live.inputs, tol, tol, what)
        if live.exact:
            # the reference problem has just been set up
            ref.prob.setup(check=False)
            m.set_inputs(ref.prob, live.inputs)
            ref.prob.run()
            same(ref.snapshot(), live.snapshot(), what + 'not as in a fresh problem: ')
        return 1, 0

    # derivatives
    if not live.current:
        prob.run()
        live.current, live.stale = True, False
    if live.stale:
        prob.run_once()
        live.stale = False
    before = live.snapshot()
    U = m.ref_values(live.inputs)
    S = m.ref_totals(U, live.inputs)
    tol = 3e-3 if live.fdkinds else 1e-6
    if name in ('fwd', 'rev', 'fd', 'gc'):
        cand = connected_indeps(m)
        if not cand:
            return 0, 0
        wrt, of = pick(cand, o['m']), pick(m.unknown_keys(), o['n'])
        mode = ['auto', 'fwd', 'rev'][o['k'] % 3] if name == 'gc' else name
        if mode == 'fd' and (live.spec.get('cyclic') or live.spec.get('groupfd')):
            tol = 3e-3
        J = prob.calc_gradient([m.root_name(k) for k in wrt], [m.root_name(k) for k in of], mode=mode, return_format='dict')
        check_totals(m, S, J, of, wrt, what + mode, 3e-4 if mode == 'fd' and tol < 3e-4 else tol)
        live.stale = mode == 'fd' or bool(live.spec.get('groupfd'))
        fd = mode == 'fd'
        # once more, with nothing in between
        if not fd and not live.stale and o['dict']:
            J2 = prob.calc_gradient([m.root_name(k) for k in wrt], [m.root_name(k) for k in of], mode=mode, return_format='dict')
            check_totals(m, S, J2, of, wrt, what + mode + ' again', tol)
            if live.exact and not live.spec['gmres']:
                for a in J:
                    for b in J[a]:
                        check(np.array_equal(J[a][b], J2[a][b]), '%sd %s / d %s was %s, now %s', what, a, b, J[a][b], J2[a][b])
    elif name == 'partials':
        prob.check_partial_derivatives(out_stream=None)
        fd = False
    else:
        if not connected_indeps(m):
            return 0, 0
        prob.check_total_derivatives(out_stream=io.StringIO() if o['dict'] else None)
        live.stale = fd = True
    after = live.snapshot()
    if (fd or live.spec.get('groupfd') and name != 'partials') and not o.get('strict'):
        before = {k: v for k, v in before.items() if not k.startswith('input ')}
    same(before, after, what)
    log.label('then:' + name)
    return 0, 1


# ---------------------------------------------------------------- library components: differential against a fresh problem

PIECES = ['linsys', 'exec', 'meta-rsm', 'meta-kriging', 'meta-nn', 'brent', 'newton', 'gs', 'sub', 'fd', 'multifi']


@st.composite
def library(draw):
    return dict(n=draw(st.integers(1, 3)), pieces=draw(st.lists(st.sampled_from(PIECES), min_size=1, max_size=4)), seed=draw(st.integers(0, 99)), ln=draw(st.sampled_from(['gmres', 'direct'])), nest=draw(st.booleans()),
                ops=draw(st.lists(st.fixed_dictionaries(dict(op=st.sampled_from(['set', 'set', 'run', 'run', 'fwd', 'rev', 'fd', 'partials', 'setup', 'record', 'fail']), k=st.integers(0, 30))), min_size=3, max_size=8)))


def library_problem(spec):
    """(problem, names of outputs, switch that makes a run fail)"""
    from openmdao.api import (Brent, Component, DirectSolver, ExecComp, FloatKrigingSurrogate, Group, IndepVarComp, LinearSystem, MetaModel, FloatMultiFiCoKrigingSurrogate, MultiFiMetaModel, Newton,
                              NearestNeighbor, NLGaussSeidel, Problem, ResponseSurface, ScipyGMRES, SubProblem)
    n = spec['n']
    r = np.random.RandomState(spec['seed'])
    boom = [False]

    class State(Component):
        """z**3 + 2 z = x0, two outputs."""

        def __init__(self, solves):
            super(State, self).__init__()
            self.solves = solves
            self.add_param('x', np.zeros(n))
            self.add_param('lo', -20.0)
            self.add_param('hi', 20.0)
            self.add_state('y', 0.0)

        def solve_nonlinear(self, p, u, rr):
            if boom[0]:
                raise Boom('on request')
            if self.solves:
                z = 0.0
                for _ in range(60):
                    z -= (z ** 3 + 2 * z - p['x'][0]) / (3 * z * z + 2)
                u['y'] = z

        def apply_nonlinear(self, p, u, rr):
            rr['y'] = u['y'] ** 3 + 2 * u['y'] - p['x'][0]

        def linearize(self, p, u, rr):
            J = {('y', 'y'): np.array([[3 * u['y'] ** 2 + 2.0]]), ('y', 'x'): np.zeros((1, n))}
            J['y', 'x'][0, 0] = -1.0
            return J

    class Loop(Component):
        """One half of a coupled pair."""

        def __init__(self, c):
            super(Loop, self).__init__()
            self.c = c
            self.add_param('x', np.zeros(n))
            self.add_param('a', 0.0)
            self.add_output('b', 0.0)

        def solve_nonlinear(self, p, u, rr):
            if boom[0]:
                raise Boom('on request')
            u['b'] = self.c * np.sin(p['a']) + np.sum(p['x'])

        def linearize(self, p, u, rr):
            return {('b', 'a'): np.array([[self.c * np.cos(p['a'])]]), ('b', 'x'): np.ones((1, n))}

    class Num(Component):
        """Derivatives by finite difference."""

        def __init__(self):
            super(Num, self).__init__()
            self.add_param('x', np.zeros(n))
            self.add_output('y', 0.0)
            self.deriv_options['type'] = 'fd'
            self.deriv_options['form'] = 'central'

        def solve_nonlinear(self, p, u, rr):
            if boom[0]:
                raise Boom('on request')
            u['y'] = np.sum(p['x'] ** 2) * .5

    root = Group()
    root.add('px', IndepVarComp('x', np.round(r.uniform(-1, 1, n), 2)))
    holder = root.add('g', Group()) if spec['nest'] else root
    pre = 'g.' if spec['nest'] else ''
    outs = []
    for k, kind in enumerate(spec['pieces']):
        name = 'c%d' % k
        if kind == 'linsys':
            A = r.uniform(-.3, .3, (n, n)) + np.diag(r.uniform(1, 2, n))
            holder.add('A%d' % k, IndepVarComp('A', A))
            holder.add(name, LinearSystem(n))
            holder.connect('A%d.A' % k, name + '.A')
            x, out = name + '.b', name + '.x'
        elif kind == 'exec':
            holder.add(name, ExecComp('y = 2.0 * sin(x) + x ** 2', x=np.zeros(n), y=np.zeros(n)))
            x, out = name + '.x', name + '.y'
        elif kind.startswith('meta') or kind == 'multifi':
            m = MultiFiMetaModel(nfi=2) if kind == 'multifi' else MetaModel()
            m.add_param('x', np.zeros(n))
            m.add_output('y', 0.0)
            sur = {'rsm': ResponseSurface, 'kriging': FloatKrigingSurrogate, 'nn': lambda: NearestNeighbor(interpolant_type='weighted'), 'multifi': FloatMultiFiCoKrigingSurrogate}[kind.split('-')[-1]]
            m.default_surrogate = sur()
            if kind == 'multifi':
                m.deriv_options['type'] = 'fd'
            holder.add(name, m)
            x, out = name + '.x', name + '.y'
        elif kind in ('brent', 'newton'):
            g = holder.add(name, Group())
            g.add('s', State(False))
            if kind == 'brent':
                g.nl_solver = Brent()
                g.nl_solver.options['state_var'] = 's.y'
                g.nl_solver.options['lower_bound'], g.nl_solver.options['upper_bound'] = -20.0, 20.0
                g.nl_solver.options['xtol'] = 1e-13
                g.nl_solver.options['rtol'] = 1e-14
                g.nl_solver.options['maxiter'] = 200
            else:
                g.nl_solver = Newton()
                g.nl_solver.options['atol'] = 1e-12
                g.nl_solver.options['rtol'] = 1e-14
            g.ln_solver = DirectSolver()
            x, out = name + '.s.x', name + '.s.y'
        elif kind == 'gs':
            g = holder.add(name, Group())
            g.add('l', Loop(.4))
            g.add('r', Loop(-.3))
            g.connect('l.b', 'r.a')
            g.connect('r.b', 'l.a')
            g.nl_solver = NLGaussSeidel()
            g.nl_solver.options['atol'] = 1e-13
            g.nl_solver.options['rtol'] = 1e-15
            g.nl_solver.options['maxiter'] = 200
            g.ln_solver = DirectSolver()
            x, out = name + '.l.x', name + '.r.b'
        elif kind == 'sub':
            inner = Problem(root=Group())
            inner.root.add('i', IndepVarComp('x', np.zeros(n)))
            inner.root.add('e', ExecComp('y = sum(x ** 3) + 1.0', x=np.zeros(n), y=0.0))
            inner.root.connect('i.x', 'e.x')
            holder.add(name, SubProblem(inner, params=['i.x'], unknowns=['e.y']))
            x, out = name + '.i.x', name + '.e.y'
        else:
            holder.add(name, Num())
            x, out = name + '.x', name + '.y'
        root.connect('px.x', pre + x)
        if kind == 'gs':
            root.connect('px.x', pre + name + '.r.x')
        outs.append(pre + out)
    root.ln_solver = DirectSolver() if spec['ln'] == 'direct' else ScipyGMRES()
    if spec['ln'] == 'gmres':
        root.ln_solver.options['atol'] = 1e-13
    prob = Problem(root=root)

    def train():
        r2 = np.random.RandomState(spec['seed'] + 1)
        for k, kind in enumerate(spec['pieces']):
            X = np.round(r2.uniform(-2, 2, (8, n)), 3)
            Y = np.round(np.sum(np.sin(X), axis=1), 4)
            if kind.startswith('meta') or kind == 'multifi':
                base = pre + 'c%d.train:' % k
                prob[base + 'x'] = [list(x) for x in X] if n > 1 else [float(x[0]) for x in X]
                prob[base + 'y'] = [float(y) for y in Y]
                if kind == 'multifi':
                    prob[base + 'x_fi2'] = [list(x) for x in X] if n > 1 else [float(x[0]) for x in X]
                    prob[base + 'y_fi2'] = [float(y) + .25 for y in Y]
    return prob, outs, boom, train


def run_library(spec, log):
    x0 = np.round(np.random.RandomState(spec['seed']).uniform(-1, 1, spec['n']), 2)
    prob, outs, boom, train = library_problem(spec)
    fresh, _, _, train2 = library_problem(spec)
    prob.setup(check=False)
    fresh.setup(check=False)
    train()
    x, current, stale = x0, False, False
    runs = ders = 0
    tol = 1e-7
    for step_no, o in enumerate(spec['ops']):
        what = 'operation %d (%s): ' % (step_no, o['op'])
        if o['op'] == 'set':
            x = np.round(np.random.RandomState(o['k'] + 100).uniform(-1, 1, spec['n']), 3)
            prob['px.x'] = x.copy()
            check(np.array_equal(prob['px.x'], x), '%sread back', what)
            current = False
            continue
        if o['op'] in ('setup', 'record'):
            if o['op'] == 'record':
                from openmdao.api import InMemoryRecorder
                prob.driver.add_recorder(InMemoryRecorder())
            prob.setup(check=False)
            train()
            prob['px.x'] = x.copy()
            current = stale = False
            continue
        if o['op'] == 'fail':
            boom[0] = True
            try:
                prob.run()
            except Boom:
                log.label('failed run')
                current = False
            else:
                current = True
            finally:
                boom[0] = False
            continue
        if o['op'] == 'run' or not current or stale:
            prob.run()
            current, stale = True, False
        runs += 1
        fresh.setup(check=False)
        train2()
        fresh['px.x'] = x.copy()
        fresh.run()
        for name in outs:
            check_close(prob[name], fresh[name], what + 'value of %s (fresh problem)' % name, tol, tol)
        if o['op'] == 'run':
            continue
        ders += 1
        before = {name: np.array(prob[name]).tobytes() for name in outs}
        if o['op'] == 'partials':
            prob.check_partial_derivatives(out_stream=None)
        else:
            J = prob.calc_gradient(['px.x'], outs, mode=o['op'], return_format='dict')
            J2 = fresh.calc_gradient(['px.x'], outs, mode=o['op'], return_format='dict')
            for name in outs:
                t = 1e-3 if o['op'] == 'fd' else 1e-6
                check_close(J[name]['px.x'], J2[name]['px.x'], what + 'd %s / d x (fresh problem)' % name, t, t)
            stale = o['op'] == 'fd'
        iterated = o['op'] == 'fd'
        for name in outs:
            if iterated:
                check_close(prob[name], np.frombuffer(before[name]).reshape(np.shape(prob[name])), what + '%s changed' % name, tol, tol)
            else:
                check(np.array(prob[name]).tobytes() == before[name], '%s%s changed from %s to %s', what, name, np.frombuffer(before[name]), prob[name])
    for kind in spec['pieces']:
        log.label(kind)
    log.nontrivial(runs >= 2 and ders >= 1)


# ---------------------------------------------------------------- drivers

DRIVERS = ['SLSQP', 'SLSQP', 'COBYLA', 'Nelder-Mead', 'BFGS', 'L-BFGS-B', 'Powell', 'uniform', 'full', 'lhc', 'cases', 'plain']


@st.composite
def drivers(draw):
    return dict(n=draw(st.integers(1, 3)), driver=draw(st.sampled_from(DRIVERS)), seed=draw(st.integers(0, 99)), con=draw(st.booleans()), scale=draw(st.booleans()), fd=draw(st.sampled_from([False, True, 'cs'])),
                ops=draw(st.lists(st.fixed_dictionaries(dict(op=st.sampled_from(['set', 'set', 'run', 'run', 'once', 'grad', 'totals', 'record', 'setup', 'other', 'fail', 'dfail']), k=st.integers(0, 30))), min_size=3, max_size=7)))


def driver_problem(spec):
    from openmdao.api import (CaseDriver, Component, Driver, FullFactorialDriver, Group, IndepVarComp, LatinHypercubeDriver, Problem, ScipyOptimizer, UniformDriver)
    n = spec['n']
    r = np.random.RandomState(spec['seed'])
    target = np.round(r.uniform(-1, 1, n), 2)
    seen, boom = [], [0]

    class Bowl(Component):
        def __init__(self):
            super(Bowl, self).__init__()
            self.add_param('x', np.zeros(n))
            self.add_param('y', 0.0)
            self.add_output('f', 0.0)
            self.add_output('c', 0.0)
            if spec['fd']:
                self.deriv_options['type'] = 'cs' if spec['fd'] == 'cs' else 'fd'

        def solve_nonlinear(self, p, u, rr):
            seen.append(np.append(p['x'], p['y']))
            if spec['fd'] != 'cs':
                seen[-1] = np.real(seen[-1])
            if boom[0]:
                boom[0] -= 1
                if not boom[0]:
                    raise Boom('on request')
            u['f'] = np.sum((p['x'] - target) ** 2) + (p['y'] - .5) ** 2 + .25 * p['x'][0] * p['y']
            u['c'] = np.sum(p['x']) + p['y']

        def linearize(self, p, u, rr):
            dx = 2 * (p['x'] - target)
            dx[0] += .25 * p['y']
            return {('f', 'x'): dx.reshape(1, n), ('f', 'y'): np.array([[2 * (p['y'] - .5) + .25 * p['x'][0]]]), ('c', 'x'): np.ones((1, n)), ('c', 'y'): np.array([[1.0]])}
    kind = spec['driver']
    if kind == 'plain':
        drv = Driver()
    elif kind == 'uniform':
        drv = UniformDriver(num_samples=4, seed=spec['seed'])
    elif kind == 'full':
        drv = FullFactorialDriver(num_levels=2)
    elif kind == 'lhc':
        drv = LatinHypercubeDriver(num_samples=4, seed=spec['seed'])
    elif kind == 'cases':
        drv = CaseDriver(num_par_doe=1)
        drv.cases = [[('px.x', np.round(r.uniform(-1, 1, n), 2)), ('py.y', float(k))] for k in range(3)]
    else:
        drv = ScipyOptimizer()
        drv.options['optimizer'] = kind
        drv.options['disp'] = False
        drv.options['maxiter'] = 6
    prob = Problem(root=Group(), driver=drv)
    prob.root.add('px', IndepVarComp('x', np.zeros(n)))
    prob.root.add('py', IndepVarComp('y', 0.25))
    prob.root.add('bowl', Bowl())
    prob.root.connect('px.x', 'bowl.x')
    prob.root.connect('py.y', 'bowl.y')
    kw = dict(scaler=2.0, adder=.5) if spec['scale'] else {}
    if kind in ('BFGS', 'Nelder-Mead', 'Powell'):
        drv.add_desvar('px.x', **kw)
        drv.add_desvar('py.y')
    else:
        drv.add_desvar('px.x', lower=-2.0, upper=2.0, **kw)
        drv.add_desvar('py.y', lower=-2.0, upper=2.0)
    drv.add_objective('bowl.f')
    if spec['con'] and kind in ('SLSQP', 'COBYLA', 'plain'):
        drv.add_constraint('bowl.c', upper=.75)
    return prob, seen, boom


NAMES = ['px.x', 'py.y', 'bowl.f', 'bowl.c']


def run_drivers(spec, log):
    prob, seen, boom = driver_problem(spec)
    fresh, seen2, _ = driver_problem(spec)
    other, seen3, _ = driver_problem(dict(spec, seed=spec['seed'] + 1))
    other.setup(check=False)
    fresh.setup(check=False)
    prob.setup(check=False)
    x, y = np.zeros(spec['n']), 0.25
    runs = n_ops = 0
    for step_no, o in enumerate(spec['ops']):
        what = 'operation %d (%s): ' % (step_no, o['op'])
        if o['op'] == 'set':
            x = np.round(np.random.RandomState(o['k'] + 100).uniform(-1, 1, spec['n']), 3)
            y = o['k'] / 16.0 - 1
        elif o['op'] == 'setup':
            prob.setup(check=False)
        elif o['op'] == 'record':
            from openmdao.api import InMemoryRecorder
            prob.driver.add_recorder(InMemoryRecorder())
            prob.setup(check=False)
        elif o['op'] == 'other':
            other['px.x'] = np.ones(spec['n'])
            other.run()
            log.label('other problem run')
        elif o['op'] == 'create':        # finding C24-locked
            driver_problem(spec)
            prob.run_once()
        elif o['op'] == 'fail':
            boom[0] = 1 + o['k'] % 4
            try:
                prob.run()
            except Boom:
                log.label('failed run')
            boom[0] = 0
        elif o['op'] == 'dfail':
            prob.run_once()
            before = [np.copy(prob[k]) for k in NAMES[:2]]
            boom[0] = 1 + o['k'] % 7
            try:
                if o['k'] % 4 == 3:
                    prob.check_partial_derivatives(out_stream=None)
                else:
                    prob.calc_gradient(['px.x', 'py.y'], ['bowl.f', 'bowl.c'], mode=['fwd', 'rev', 'fd'][o['k'] % 4])
            except Boom:
                log.label('failed derivatives')
            boom[0] = 0
            for k, v in zip(NAMES, before):
                check(np.array_equal(prob[k], v), '%s%s is %s, was %s before the failure', what, k, prob[k], v)
        elif o['op'] == 'grad':
            prob.run_once()
            prob.calc_gradient(['px.x', 'py.y'], ['bowl.f', 'bowl.c'], mode=['fwd', 'rev', 'fd'][o['k'] % 3])
        elif o['op'] == 'totals':
            prob.check_total_derivatives(out_stream=None)
        elif o['op'] in ('run', 'once'):
            prob['px.x'], prob['py.y'] = x.copy(), y
            fresh.setup(check=False)
            fresh['px.x'], fresh['py.y'] = x.copy(), y
            del seen[:], seen2[:]
            for p in (prob, fresh):
                if o['op'] == 'run':
                    p.run()
                else:
                    p.run_once()
            runs += 1
            check(len(seen) == len(seen2), '%sthe model runs %d times, %d in a fresh problem', what, len(seen), len(seen2))
            for j, (a, b) in enumerate(zip(seen, seen2)):
                check(np.array_equal(a, b), '%spoint %d is %s, %s in a fresh problem', what, j, a, b)
            for name in NAMES:
                check(np.array_equal(prob[name], fresh[name]), '%s%s is %s, %s in a fresh problem', what, name, prob[name], fresh[name])
            if o['op'] == 'once':
                check(np.array_equal(prob['px.x'], x) and prob['py.y'] == y, '%sinputs changed', what)
        n_ops += o['op'] not in ('run', 'set')
    log.label(spec['driver'])
    log.nontrivial(runs >= 1 and len(spec['ops']) >= 3)


FACETS = [
    Facet('feed', feed, run_history, 400, rule='histories on one or two problems; non-trivial: at least one run and one derivative request'),
    Facet('cyclic', cyclic, run_history, 120, rule='the same with coupled groups'),
    Facet('library', library, run_library, 250, rule='library components and solvers against a fresh problem; non-trivial: two comparisons and a derivative request'),
    Facet('drivers', drivers, run_drivers, 300, rule='histories of driver runs against a fresh problem; non-trivial: a run after at least two other operations'),
]
