"""C21: a SubProblem behaves like the model it wraps."""
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt.core import Facet, check, check_close
from pbt.derivs import MASKS, pick
from pbt.models import FAMILIES, FAMILY, Model, conv, full, gen_model, nsize
from pbt.props.c01 import impl_of, new_inputs, nlgs_configure

ASSUMPTIONS = ['analytic gradients agree to 1e-6, finite differences to 5e-4 of the block scale',
               'a variable is exposed either as a param or as an unknown', 'fd leaves inputs at the last point it visited (finding C24): runs follow it']


@st.composite
def wrapped(draw):
    cyc = draw(st.integers(0, 4)) == 0
    spec = draw(gen_model(max_comps=6, min_comps=2, kinds=('lin', 'mf', 'exec'), impl=12, mild=True, cyclic=cyc, scatter=cyc,
                          groupkinds=not cyc))
    ops = draw(st.lists(st.sampled_from(['run', 'inputs', 'inputs', 'fwd', 'rev', 'fd', 'setup', 'partials', 'touch']), min_size=1, max_size=6))
    return dict(model=spec, params=draw(MASKS), unknowns=draw(MASKS), nest=draw(st.sampled_from([1, 1, 1, 2, 3])),
                feed=draw(st.sampled_from([0, 2, 6, 6])), promote=draw(st.sampled_from(['none', 'all', 'some'])), deep=draw(st.integers(0, 2)), units=draw(st.lists(st.integers(0, 20), min_size=8, max_size=8)),
                impl=draw(st.sampled_from(['basic', 'basic', 'basic', 'petsc'])), ops=ops, ln=draw(st.sampled_from(['lgs', 'gmres', 'direct'])),
                post=draw(st.booleans()), bad=draw(st.sampled_from([None] * 8 + ['unknown param', 'connected param', 'computed param', 'missing unknown'])))


def wrap(api, inner, names_p, names_u, promote, seed, level, feed=None, impl=None):
    """Problem containing the wrapped problem; returns it and the new names."""
    outer = api.Problem(root=api.Group(), impl=impl or api.BasicImpl)
    outer.root.deriv_options['form'] = 'central'
    sub = api.SubProblem(inner, params=names_p, unknowns=names_u)
    prom = []
    if promote == 'all':
        prom = names_p + names_u
    elif promote == 'some':
        prom = [n for i, n in enumerate(names_p + names_u) if (seed >> i) & 1]
    label = 'S%d' % level
    outer.root.add(label, sub, promotes=prom if prom else None)
    up = lambda n: n if n in prom else label + '.' + n
    top_p = [up(n) for n in names_p]
    if feed is not None:
        # gradients of the outer problem need independent variables: feed[j] is (value, kwargs) for param j
        for j, (val, kw) in enumerate(feed):
            outer.root.add('F%d' % j, api.IndepVarComp('v', val, **kw))
            outer.root.connect('F%d.v' % j, top_p[j])
        top_p = ['F%d.v' % j for j in range(len(feed))]
    return outer, sub, top_p, [up(n) for n in names_u]


def run(spec, log):
    import openmdao.api as api
    warnings.simplefilter('ignore')
    m = Model(spec['model'])
    cyc = spec['model']['cyclic'] or spec['model']['scatter']
    conf = nlgs_configure(m) if cyc else None
    cand = m.indep_keys() + m.dangling_keys()
    pkeys = pick(cand, spec['params'])
    rest = [k for k in m.unknown_keys() if k not in pkeys]
    if not rest:
        return
    ukeys = pick(rest, spec['unknowns'])

    def configure(node, g):
        if conf:
            conf(node, g)
        if node['_path'] == () and cyc:
            g.ln_solver = api.ScipyGMRES()
    inner = m.build(configure=configure, setup=False, impl=impl_of(spec['impl']))
    pn = [m.root_name(k) for k in pkeys]
    un = [m.root_name(k) for k in ukeys]
    if spec['bad']:
        return run_bad(spec, m, inner, pn, un, pkeys, log, api)

    def meta(key):
        ci, t, k = key
        return (m.comps[ci]['outs'] if t == 'o' else m.comps[ci]['ins'])[k]

    innermost = inner
    prob = inner
    for lev in range(1, spec['nest']):
        feed = None
        if (spec['feed'] >> lev) & 1:
            feed = [(full(meta(key)['s'], np.zeros(nsize(meta(key)['s']))), {'units': meta(key)['u']} if meta(key)['u'] else {}) for key in pkeys]
        prob, _, pn, un = wrap(api, prob, pn, un, spec['promote'], spec['params'] >> lev, lev, feed, impl_of(spec['impl']))
    # analytic derivatives need a source for every exposed param, at each level
    analytic = all(key[1] == 'o' for key in pkeys) if spec['nest'] == 1 else feed is not None and (
        all((spec['feed'] >> lev) & 1 for lev in range(1, spec['nest'])) and all(key[1] == 'o' for key in pkeys))
    # the outermost level lives in a group of the final model
    root = api.Group()
    g = root
    path = ''
    for k in range(spec['deep']):
        g = g.add('Zg%d' % k, api.Group())
        path += 'Zg%d.' % k
    sub = api.SubProblem(prob, params=pn, unknowns=un)
    prom = {'none': [], 'all': pn + un, 'some': [n for i, n in enumerate(pn + un) if (spec['unknowns'] >> i) & 1]}[spec['promote']]
    g.add('Zsub', sub, promotes=prom if prom else None)
    full_name = lambda n: path + (n if n in prom else 'Zsub.' + n)
    top = api.Problem(root=root, impl=impl_of(spec['impl']) or api.BasicImpl)
    if spec['ln'] == 'gmres':
        root.ln_solver = api.ScipyGMRES()
    elif spec['ln'] == 'direct':
        root.ln_solver = api.DirectSolver()
    root.deriv_options['form'] = 'central'

    inputs = m.input_defaults()

    src, fac = {}, {}
    for j, key in enumerate(pkeys):
        o = meta(key)
        u = o['u']
        su = None
        if u is not None:
            fam = [x for f in FAMILIES for x in f if FAMILY[u] == FAMILY[x]]
            pickd = spec['units'][j % 8]
            su = fam[pickd % len(fam)] if pickd % 3 else None
            if su in ('km', 'g', 'h') or u in ('km', 'g', 'h'):   # keep the factors modest
                su = u
        name = 'Zi%d' % j
        kw = {'units': su} if su else {}
        root.add(name, api.IndepVarComp('x', full(o['s'], np.zeros(nsize(o['s']))), **kw))
        root.connect(name + '.x', full_name(pn[j]))
        src[key] = name + '.x'
        fac[key] = conv(su, u)
        if su and su != u:
            log.label('units at the boundary')
    resp = {}
    if spec['post']:
        for j, key in enumerate(ukeys):
            o = meta(key)
            val = full(o['s'], np.zeros(nsize(o['s'])))
            root.add('Zo%d' % j, api.ExecComp('z = 3.0*u - 1.0', u=val, z=val))
            root.connect(full_name(un[j]), 'Zo%d.u' % j)
            resp[key] = 'Zo%d.z' % j
    else:
        resp = {key: full_name(un[j]) for j, key in enumerate(ukeys)}
    gain = 3.0 if spec['post'] else 1.0

    def setin():
        for key in pkeys:
            s, t = fac[key]
            top[src[key]] = full(meta(key)['s'], (inputs[key] - t) / s)

    def exposed():
        ps, us = set(sub.params.keys()), set(sub.unknowns.keys())
        check(ps == set(pn), 'SubProblem params are %s, requested %s', sorted(ps), sorted(pn))
        check(us == set(un), 'SubProblem unknowns are %s, requested %s', sorted(us), sorted(un))
        other = [k for k in m.unknown_keys() if k not in ukeys and k not in pkeys]
        for k in other:
            for n in (full_name(m.root_name(k)), 'Zsub.' + m.root_name(k)):
                check(n not in set(top.root.unknowns.keys()), 'variable %s of the wrapped problem is visible as %s', m.abs_name(k), n)

    tol = (1e-6, 1e-7) if cyc else (1e-8, 1e-8)

    def values(what):
        U = m.ref_values(inputs)
        for j, key in enumerate(ukeys):
            want = m.uval(key, U)
            check_close(top[full_name(un[j])], want, '%s: exposed %s' % (what, m.abs_name(key)), *tol)
            if spec['post']:
                check_close(top[resp[key]], 3.0 * np.array(want) - 1.0, '%s: consumer of %s' % (what, m.abs_name(key)), *tol)
        for key in m.unknown_keys():
            check_close(innermost[m.root_name(key)], m.uval(key, U), '%s: %s inside' % (what, m.abs_name(key)), *tol)
        for j, key in enumerate(pkeys):
            check_close(np.ravel(sub.params[pn[j]]), inputs[key], '%s: param %s' % (what, pn[j]), *tol)
        return U

    def block(key, w, U, S):
        a, b = m.off[(key[0], key[2])]
        if w[1] == 'o':
            c, d = m.off[(w[0], w[2])]
            J = S[a:b, c:d]
        else:
            J = np.zeros((b - a, len(inputs[w])))
            for i in range(J.shape[1]):
                h = 1e-5
                pts = []
                for sg in (1, -1):
                    inp = dict(inputs)
                    inp[w] = inputs[w].copy()
                    inp[w][i] += sg * h
                    pts.append(m.ref_values(inp)[a:b])
                J[:, i] = (pts[0] - pts[1]) / (2 * h)
        return J * gain * fac[w][0]

    dep = graded = 0

    def judge(J, U, what, numeric):
        nonlocal dep
        S = m.ref_totals(U, inputs)
        for key in ukeys:
            for w in pkeys:
                want = block(key, w, U, S)
                got = np.asarray(J[resp[key]][src[w]])
                check(got.shape == want.shape, '%s: d%s/d%s has shape %s, expected %s', what, m.abs_name(key), m.abs_name(w), got.shape, want.shape)
                scale = np.abs(want).max() + np.abs(S).max() * 1e-3
                rt = 5e-4 if numeric else 1e-5 if w[1] == 'i' or cyc else 1e-6
                val = np.abs(U).max()
                check_close(got, want, '%s: d%s/d%s' % (what, m.abs_name(key), m.abs_name(w)), rt, rt * (scale + (1e-3 * val if numeric else 1e-3)))
                if np.any(want):
                    dep += 1

    top.setup(check=False)
    exposed()
    setin()
    top.run()
    U = values('first run')
    k = 0
    for op in spec['ops']:
        if op in ('fwd', 'rev', 'partials') and not (analytic or spec.get('strict')):   # finding C21-dangling
            continue
        if op == 'run':
            top.run()
            U = values('run')
        elif op == 'inputs':
            k += 1
            inputs = dict(inputs)
            new = new_inputs(m, k)
            for key in pkeys:
                inputs[key] = new[key]
            setin()
            top.run()
            U = values('new inputs')
        elif op == 'setup':
            top.setup(check=False)
            exposed()
            setin()
            top.run()
            U = values('after setup')
        elif op == 'touch':
            # values set from outside inside the wrapped problem do not survive a run
            for key in pkeys:
                innermost[m.root_name(key)] = full(meta(key)['s'], inputs[key] + 1.0)
            top.run()
            U = values('after meddling')
        elif op == 'partials':
            if spec['impl'] == 'petsc':
                continue
            sub.deriv_options['check_form'] = 'central'
            res = top.check_partial_derivatives(out_stream=None)[sub.pathname]
            S = m.ref_totals(U, inputs)
            for i, key in enumerate(ukeys):
                for j, w in enumerate(pkeys):
                    want = block(key, w, U, S) / gain     # in the units of the source
                    for kind in ('J_fwd', 'J_rev', 'J_fd'):
                        got = res[un[i], pn[j]][kind]
                        rt = 5e-4 if kind == 'J_fd' else 1e-5
                        check_close(got, want, 'partials %s: d%s/d%s' % (kind, un[i], pn[j]), rt,
                                    rt * (np.abs(want).max() + np.abs(S).max() * 1e-3 + 1e-3 * (1 + np.abs(U).max())))
            graded += 1
            top.run()
            U = values('after partials')
        else:
            J = top.calc_gradient([src[w] for w in pkeys], [resp[key] for key in ukeys], mode=op, return_format='dict')
            judge(J, U, op, op == 'fd')
            graded += 1
            if op == 'fd':
                top.run()
            U = values('after ' + op)
    log.label('depth %d' % spec['nest'], spec['promote'])
    log.label('%d params' % min(len(pkeys), 4))
    for w in pkeys:
        log.label('param: independent' if w[1] == 'o' else 'param: unconnected input')
    if any(m.comps[k[0]]['kind'].startswith('impl') and k[2] == 0 for k in ukeys):
        log.label('state exposed')
    if cyc:
        log.label('coupled')
    if dep:
        log.label('gradients')
    log.nontrivial(len(m.comps) > 1 and (dep or any(o in ('inputs', 'setup', 'touch', 'run') for o in spec['ops'])))


def run_bad(spec, m, inner, pn, un, pkeys, log, api):
    bad = spec['bad']
    connected = [k for k in m.param_keys() if m.comps[k[0]]['ins'][k[2]]['src'] is not None]
    computed = [k for k in m.unknown_keys() if m.comps[k[0]]['kind'] != 'indep']
    if bad == 'unknown param':
        name, pn = 'no_such', pn + ['no_such']
    elif bad == 'missing unknown':
        name, un = 'no_such', un + ['no_such']
    elif bad == 'connected param':
        connected = [k for k in connected if m.root_name(k) not in [m.root_name(o) for o in m.unknown_keys()]]
        if not connected:
            return
        name = m.root_name(connected[spec['params'] % len(connected)])
        pn = pn + [name]
    else:
        if not computed:
            return
        name = m.root_name(computed[spec['params'] % len(computed)])
        pn, un = pn + [name], [u for u in un if u != name]
    top = api.Problem(root=api.Group(), impl=impl_of(spec['impl']) or api.BasicImpl)
    top.root.add('sub', api.SubProblem(inner, params=pn, unknowns=un))
    try:
        top.setup(check=False)
    except (RuntimeError, TypeError, KeyError, NameError) as err:
        check(name.split('.')[-1] in str(err), '%s %r: the message does not name it: %r', bad, name, err)
    else:
        check(False, '%s %r was accepted', bad, name)
    log.label('refused: ' + bad)
    log.nontrivial()


# ------------------------------------------------------------------ drivers and objects inside

@st.composite
def drivers(draw):
    return dict(kind=draw(st.sampled_from(['SLSQP', 'COBYLA', 'FullFactorial', 'Uniform', 'LatinHypercube', 'none'])), n=draw(st.integers(1, 3)),
                seed=draw(st.integers(0, 10 ** 6)), points=draw(st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=4)),
                nest=draw(st.integers(1, 2)), text=draw(st.booleans()), outer=draw(st.sampled_from(['none', 'FullFactorial', 'fd'])),
                fed=draw(st.booleans()), con=draw(st.booleans()), scaled=draw(st.booleans()), fail=draw(st.sampled_from([None, None, None, 'raise'])))


def run_drivers(spec, log):
    import openmdao.api as api
    from openmdao.core.component import Component
    warnings.simplefilter('ignore')
    n = spec['n']
    r = np.random.RandomState(spec['seed'])
    c0 = np.round(r.uniform(-1, 1, n), 2)
    calls = []

    class Inner(Component):
        def __init__(self, who):
            super(Inner, self).__init__()
            self.who = who
            self.add_param('x', np.zeros(n))
            self.add_param('p', 0.0)
            self.add_output('f', 0.0)
            self.add_output('y', np.zeros(n))
            if spec['text']:
                self.add_param('t', 'none', pass_by_obj=True)
                self.add_output('s', '', pass_by_obj=True)

        def solve_nonlinear(self, p, u, res):
            calls.append((self.who, p['x'].tolist(), p['p']))
            if spec['fail'] == 'raise' and p['p'] > 1.2:
                raise ValueError('bad design point')
            u['y'] = 2.0 * p['x'] - p['p']
            u['f'] = np.sum((p['x'] - c0 - .3 * p['p']) ** 2) + p['p']
            if spec['text']:
                u['s'] = '%s/%g' % (p['t'], p['p'])

        def linearize(self, p, u, res):
            return {('f', 'x'): 2 * (p['x'] - c0 - .3 * p['p']).reshape(1, n),
                    ('f', 'p'): np.array([[np.sum(-.6 * (p['x'] - c0 - .3 * p['p'])) + 1.0]]),
                    ('y', 'x'): 2 * np.eye(n), ('y', 'p'): -np.ones((n, 1))}

    def make(who):
        prob = api.Problem(root=api.Group())
        prob.root.add('ix', api.IndepVarComp('x', np.zeros(n)), promotes=['x'])
        if spec['kind'] == 'none' or spec['fed']:
            prob.root.add('ip', api.IndepVarComp('p', 0.0), promotes=['p'])
        prob.root.add('c', Inner(who), promotes=['*'])
        k = spec['kind']
        kw = dict(scaler=2.0, adder=.5) if spec['scaled'] else {}
        if k in ('SLSQP', 'COBYLA'):
            prob.driver = api.ScipyOptimizer()
            prob.driver.options['optimizer'] = k
            prob.driver.options['disp'] = False
            prob.driver.options['tol'] = 1e-9
            prob.driver.add_desvar('x', lower=-2.0, upper=2.0, **kw)
            prob.driver.add_objective('f')
            if spec['con']:
                prob.driver.add_constraint('y', upper=1.5)
        elif k != 'none':
            from openmdao.drivers.latinhypercube_driver import LatinHypercubeDriver
            prob.driver = {'FullFactorial': lambda: api.FullFactorialDriver(num_levels=2), 'Uniform': lambda: api.UniformDriver(num_samples=4, seed=3),
                           'LatinHypercube': lambda: LatinHypercubeDriver(num_samples=4, seed=3)}[k]()
            prob.driver.add_desvar('x', lower=-2.0, upper=2.0)
            prob.driver.add_objective('f')
        return prob

    alone = make('alone')
    alone.setup(check=False)
    inner = innermost = make('inner')
    ps, us = ['p'] + (['t'] if spec['text'] else []), ['x', 'f', 'y'] + (['s'] if spec['text'] else [])
    for lev in range(1, spec['nest']):
        inner, _, ps, us = wrap(api, inner, ps, us, 'all', 0, lev, [(0.0, {}), ('', {'pass_by_obj': True})][:len(ps)])
    top = api.Problem(root=api.Group())
    sub = top.root.add('sub', api.SubProblem(inner, params=ps, unknowns=us))
    top.root.add('ip', api.IndepVarComp('p', 0.0))
    top.root.connect('ip.p', 'sub.' + ps[0])
    if spec['text']:
        top.root.add('it', api.IndepVarComp('t', 'none', pass_by_obj=True))
        top.root.connect('it.t', 'sub.' + ps[1])
    top.root.add('after', api.ExecComp('g = 2.0*f + sum(y)', y=np.zeros(n)))
    top.root.connect('sub.f', 'after.f')
    top.root.connect('sub.y', 'after.y')
    top.root.deriv_options['form'] = 'central'
    top.root.deriv_options['step_size'] = 1e-3
    cases = []
    if spec['outer'] == 'FullFactorial':
        top.driver = api.FullFactorialDriver(num_levels=3)
        top.driver.add_desvar('ip.p', lower=-1.0, upper=2.0)
        rec = api.InMemoryRecorder()
        top.driver.add_recorder(rec)
    top.setup(check=False)

    def reference(p, t):
        alone['p'] = p
        if spec['text']:
            alone['t'] = t
        try:
            alone.run()
        except ValueError:
            return None
        return {k: alone[k] for k in us}

    failed = False
    for i, sd in enumerate(spec['points']):
        p = float(np.round(np.random.RandomState(sd).uniform(-1.5, 1.5), 2))
        t = 'case%d' % i
        top['ip.p'] = p
        if spec['text']:
            top['it.t'] = t
        # the outer design visits three levels, in order
        alone['x'] = innermost['x']     # both optimisers start where the last run ended
        seq = [-1.0, .5, 2.0] if spec['outer'] == 'FullFactorial' else [p]
        calls[:] = []
        want = None
        bad = False
        for v in seq:
            want = reference(v, t)
            if want is None:
                bad = True
                break
        mine = [c[1:] for c in calls]
        calls[:] = []
        try:
            top.run()
        except Exception as err:
            check(bad, 'run failed: %r', err)
            check("In subproblem 'sub'" in str(err) and 'bad design point' in str(err), 'unhelpful message %r', str(err))
            failed = True
            continue
        check(not bad, 'the failure inside the wrapped problem did not come out')
        theirs = [c[1:] for c in calls]
        check(len(mine) == len(theirs), 'the wrapped problem ran its component %d times, the same problem alone %d times (%s)', len(theirs), len(mine), spec['kind'])
        for a, b in zip(theirs, mine):
            check_close(a[0] + [a[1]], b[0] + [b[1]], 'points visited inside', 1e-9, 1e-12)
        for k in us:
            if k == 's':
                check(top['sub.s'] == want['s'], 'text output is %r, expected %r', top['sub.s'], want['s'])
            else:
                check_close(top['sub.' + k], want[k], 'output %s at p=%s (%s)' % (k, p, spec['kind']), 1e-9, 1e-11)
        check_close(top['after.g'], 2 * want['f'] + np.sum(want['y']), 'consumer', 1e-9, 1e-11)
        if spec['outer'] == 'fd' and spec['kind'] == 'SLSQP' and not spec['con']:
            # the derivative of the optimum: x* = c0 + .3 p, f* = p
            xs = np.clip(c0 + .3 * p, -2, 2)
            if np.all(np.abs(c0 + .3 * p) < 1.9):
                J = top.calc_gradient(['ip.p'], ['sub.x', 'sub.f'], mode='fd', return_format='dict')
                check_close(J['sub.x']['ip.p'], np.full((n, 1), .3), 'derivative of the optimum', 2e-2, 2e-2)
                check_close(J['sub.f']['ip.p'], [[1.0]], 'derivative of the optimal value', 1e-2, 1e-2)
                log.label('derivative of an optimum')
        if spec['kind'] == 'none' and not spec['text']:
            for mode in ('fwd', 'rev'):
                J = top.calc_gradient(['ip.p'], ['after.g'], mode=mode)
                e = np.asarray(want['x']) - c0 - .3 * seq[-1]
                if spec['outer'] != 'FullFactorial':
                    check_close(J, [[2 * (np.sum(-.6 * e) + 1.0) - n]], 'gradient %s' % mode, 1e-7, 1e-7)
        if spec['kind'] == 'none' and spec['text'] and spec['outer'] != 'FullFactorial':
            for mode in ('fwd', 'rev', 'fd'):
                J = top.calc_gradient(['ip.p'], ['after.g'], mode=mode)
                e = np.asarray(want['x']) - c0 - .3 * seq[-1]
                check_close(J, [[2 * (np.sum(-.6 * e) + 1.0) - n]], 'gradient %s with text variables' % mode, 1e-4, 1e-4)
            top.run()
    if failed:
        log.label('failure inside')
    log.label(spec['kind'], 'outer ' + spec['outer'])
    log.nontrivial(spec['kind'] != 'none' or spec['text'])


FACETS = [
    Facet('wrapped', wrapped, run, quick=350, thorough=8000, rule='inputs changed or gradients compared for a wrapped model of two or more components, or a wrong request refused'),
    Facet('drivers', drivers, run_drivers, quick=200, thorough=3000, rule='a driver or text variables inside'),
]
