"""C17: library components satisfy their defining equations."""
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt.core import Facet, check, check_close
from pbt.props import c16

ASSUMPTIONS = ['matrices have a condition number below 1e4', 'LinearGaussSeidel is used on groups whose only implicit component '
               'is the linear system (it solves itself), as the existing examples do']

# ------------------------------------------------------------------ LinearSystem


@st.composite
def linsys(draw):
    n = draw(st.integers(1, 5))
    points = draw(st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=3))
    return dict(n=n, points=points, nonlin=draw(st.sampled_from(['RunOnce', 'RunOnce', 'Newton', 'NLGaussSeidel'])),
                lin=draw(st.sampled_from(['LinearGaussSeidel', 'ScipyGMRES', 'DirectSolver', 'GMRES+GS'])),
                deep=draw(st.integers(0, 2)), two=draw(st.booleans()), down=draw(st.booleans()),
                ask=draw(st.lists(st.sampled_from(['fwd', 'rev', 'fd', 'run', 'set', 'partials']), min_size=1, max_size=5)),
                of=draw(st.booleans()), voi=draw(st.booleans()))


def matrix(seed, n):
    r = np.random.RandomState(seed)
    a = r.uniform(-1, 1, (n, n))
    while np.linalg.svd(a)[1].min() < .5:
        a = a + np.diag(r.uniform(.5, 1.5, n))
    return np.round(a, 3), np.round(r.uniform(-2, 2, n), 2)


def run_linsys(spec, log):
    from openmdao.api import (Component, DirectSolver, Group, IndepVarComp, LinearGaussSeidel, LinearSystem, Newton,
                              NLGaussSeidel, Problem, RunOnce, ScipyGMRES)
    n = spec['n']

    class Down(Component):
        def __init__(self):
            super(Down, self).__init__()
            self.add_param('x', np.zeros(n))
            self.add_output('f', 0.0)
            self.add_output('g', np.zeros(n))

        def solve_nonlinear(self, p, u, r):
            u['f'] = np.sum(np.arange(1, n + 1) * p['x'] ** 2)
            u['g'] = np.sin(p['x'])

        def linearize(self, p, u, r):
            return {('f', 'x'): (2 * np.arange(1, n + 1) * p['x']).reshape(1, n), ('g', 'x'): np.diag(np.cos(p['x']))}

    def solver(g, top=False):
        if spec['nonlin'] == 'Newton':
            g.nl_solver = Newton()
            g.nl_solver.options['atol'] = 1e-12
            g.nl_solver.options['rtol'] = 1e-14
        elif spec['nonlin'] == 'NLGaussSeidel':
            g.nl_solver = NLGaussSeidel()
        lin = spec['lin']
        if lin == 'LinearGaussSeidel':
            g.ln_solver = LinearGaussSeidel()
        elif lin in ('ScipyGMRES', 'GMRES+GS') and not top:
            g.ln_solver = LinearGaussSeidel()   # SciPy's gmres is not re-entrant
        elif lin in ('ScipyGMRES', 'GMRES+GS'):
            g.ln_solver = ScipyGMRES()
            g.ln_solver.options['atol'] = 1e-13
            if lin == 'GMRES+GS':
                g.ln_solver.preconditioner = LinearGaussSeidel()
        else:
            g.ln_solver = DirectSolver()
    prob = Problem(root=Group())
    root = prob.root
    A, b = matrix(spec['points'][0], n)
    root.add('pa', IndepVarComp('A', A))
    root.add('pb', IndepVarComp('b', b))
    path = 's'
    g = root
    for k in range(spec['deep']):
        g = g.add('g%d' % k, Group())
        solver(g)
        path = 'g%d.%s' % (k, path)
    if spec['deep'] > 1:
        path = 'g0.g1.s'
    comp = g.add('s', LinearSystem(n))
    solver(root, True)
    root.connect('pa.A', path + '.A')
    root.connect('pb.b', path + '.b')
    last = path + '.x'
    outs = [last]
    if spec['two']:
        # the solution of one system is the right-hand side of the next
        (root if spec['deep'] != 1 else g).add('t', LinearSystem(n))
        tp = 't' if spec['deep'] != 1 else 'g0.t'
        root.connect('pa.A', tp + '.A')
        root.connect(last, tp + '.b')
        last = tp + '.x'
        outs.append(last)
    if spec['down']:
        root.add('d', Down())
        root.connect(last, 'd.x')
        outs += ['d.f', 'd.g']
    # Newton asks the linear systems to solve for its steps without running them first
    prob.setup(check=False)

    def expected(A, b):
        inv = np.linalg.inv(A)
        x = inv.dot(b)
        vals = {outs[0]: x}
        d = {outs[0]: {'pb.b': inv, 'pa.A': -np.einsum('ik,l->ikl', inv, x).reshape(n, n * n)}}
        if spec['two']:
            y = inv.dot(x)
            vals[outs[1]] = y
            d[outs[1]] = {'pb.b': inv.dot(d[outs[0]]['pb.b']),
                          'pa.A': -np.einsum('ik,l->ikl', inv, y).reshape(n, n * n) + inv.dot(d[outs[0]]['pa.A'])}
        if spec['down']:
            y = vals[last]
            w = np.arange(1, n + 1)
            vals['d.f'] = np.sum(w * y ** 2)
            vals['d.g'] = np.sin(y)
            d['d.f'] = dict((k, (2 * w * y).reshape(1, n).dot(v)) for k, v in d[last].items())
            d['d.g'] = dict((k, np.diag(np.cos(y)).dot(v)) for k, v in d[last].items())
        return vals, d
    scale = None

    def run():
        prob.run()
        vals, _ = expected(A, b)
        for o in outs:
            check_close(prob[o], vals[o], '%s after run with A=%s b=%s' % (o, A.tolist(), b.tolist()), 1e-7, 1e-8 * max(1, np.abs(vals[o]).max()))
        check_close(comp.resids['x'], A.dot(comp.unknowns['x']) - b, 'residual of the linear system', 1e-9, 1e-10)
    run()
    npt = 1
    for ask in spec['ask']:
        if ask == 'set':
            A, b = matrix(spec['points'][npt % len(spec['points'])] + npt, n)
            npt += 1
            prob['pa.A'] = A
            prob['pb.b'] = b
            run()
        elif ask == 'run':
            run()
        elif ask == 'partials':
            out = prob.check_partial_derivatives(out_stream=None)
            for (of, wrt), data in out[path].items():
                for key in ('J_fwd', 'J_rev'):
                    want = {'A': np.kron(np.eye(n), np.linalg.solve(A, b)), 'b': -np.eye(n), 'x': A}[wrt]
                    check_close(data[key], want, 'partial %s of %s wrt %s' % (key, of, wrt), 1e-6, 1e-7)
            prob.run()
        else:
            indeps = ['pa.A', 'pb.b']
            of = outs[-1:] if spec['of'] else outs
            got = prob.calc_gradient(indeps, of, mode=ask, return_format='dict')
            _, d = expected(A, b)
            for o in of:
                for i in indeps:
                    want = d[o][i]
                    tol = 1e-5 if ask != 'fd' else 3e-4 * max(1, np.linalg.norm(np.linalg.inv(A)) ** 2)
                    check_close(got[o][i], want, '%s total of %s wrt %s with A=%s b=%s' % (ask, o, i, A.tolist(), b.tolist()),
                                tol, tol * max(1, np.abs(want).max()))
            if ask == 'fd':
                prob.run()
            log.label(ask)
            log.nontrivial()
    log.label(spec['lin'], spec['nonlin'])


# ------------------------------------------------------------------ ConstraintComp

OPS = ['<', '>', '<=', '>=', '=']


@st.composite
def constraints(draw):
    names = draw(st.lists(st.sampled_from(['x', 'y', 'z', 'x1', 'v_2', 'f:g', 'f:g:h']), min_size=1, max_size=3, unique=True))
    vs = dict((n, None) for n in names)
    zero = st.sampled_from(['0', '0.0', '0.', '-0.0', '0e0'])
    lhs, rhs = draw(c16.exprs(vs, None, 2, True)), draw(c16.exprs(vs, None, 1, True))
    k = draw(st.integers(0, 5))
    if k == 0:
        lhs = ['z', draw(zero)]
    elif k == 1:
        rhs = ['z', draw(zero)]
    elif k == 2:
        rhs = ['raw', '+', ['c', '2'], ['v', names[0]]]
    elif k == 3:
        lhs = ['raw', '-', ['v', names[0]], ['c', '2']]
    mag = st.sampled_from([-2., -1.3, -.7, -.25, .3, .8, 1., 1.7])
    return dict(lhs=lhs, rhs=rhs, op=draw(st.sampled_from(OPS)), names=sorted(names), space=draw(st.integers(0, 2)),
                xs=[[draw(mag) for _ in names] for _ in range(2)], out=draw(st.sampled_from(['out', 'out', 'con', 'c:out'])),
                extra=draw(st.sampled_from([None] * 5 + ['==', 'none', 'double'])), mode=draw(st.sampled_from(['fwd', 'rev'])))


def ctext(t, sp):
    if t[0] == 'z':
        return t[1]
    if t[0] == 'raw':     # a sum without parentheses around it
        return '%s %s %s' % (c16.text(t[2], sp), t[1], c16.text(t[3], sp))
    return c16.text(t, sp)


def cev(t, env, nin):
    if t[0] == 'z':
        return c16.D(0.0, np.zeros(nin))
    if t[0] == 'raw':
        return c16.ev(['op'] + t[1:], env, nin)
    return c16.ev(t, env, nin)


def run_constraint(spec, log):
    from openmdao.api import ConstraintComp, Group, IndepVarComp, Problem
    s = ' ' * spec['space']
    l, r = ctext(spec['lhs'], spec['space']), ctext(spec['rhs'], spec['space'])
    op = spec['op']
    expr = {None: '%s%s%s%s%s' % (l, s, op, s, r), '==': '%s==%s' % (l, r), 'none': l,
            'double': '%s %s %s %s 3.0' % (l, op, r, '<=' if op != '<=' else '<')}[spec['extra']]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            comp = ConstraintComp(expr, spec['out']) if spec['out'] != 'out' else ConstraintComp(expr)
        except ValueError as err:
            check(spec['extra'], 'the constraint %r was refused: %s', expr, err)
            log.label('refused ' + spec['extra'])
            log.nontrivial()
            return
    check(not spec['extra'], '%r was accepted as a constraint', expr)
    used = [n for n in spec['names'] if n in c16.variables(spec['lhs']) + c16.variables(spec['rhs'])]
    check(sorted(comp._init_params_dict) == used, 'inputs of %r: %s, expected %s', expr, sorted(comp._init_params_dict), used)
    prob = Problem(root=Group())
    prob.root.add('c', comp)
    for i, n in enumerate(used):
        prob.root.add('p%d' % i, IndepVarComp('v', 1.0))
        prob.root.connect('p%d.v' % i, 'c.' + n)
    prob.setup(check=False)
    for xs in spec['xs']:
        vals = [x for n, x in zip(spec['names'], xs) if n in used]
        env = dict((n, c16.D(v, np.eye(len(used))[i])) for i, (n, v) in enumerate(zip(used, vals)))
        try:
            a, b = cev(spec['lhs'], env, len(used)), cev(spec['rhs'], env, len(used))
        except c16.Skip:
            log.label('skipped')
            return
        for i, v in enumerate(vals):
            prob['p%d.v' % i] = v
        prob.run()
        sign = -1. if op.startswith('>') else 1.
        want = sign * (a.v - b.v)
        got = prob['c.' + spec['out']]
        check_close(got, want, 'value of constraint %r at %s' % (expr, dict(zip(used, vals))), 1e-8, 1e-9)
        if used:
            J = prob.calc_gradient(['p%d.v' % i for i in range(len(used))], ['c.' + spec['out']], mode=spec['mode'])
            check_close(J, sign * (a.d - b.d).reshape(1, -1), 'gradient of constraint %r' % expr, 1e-5, 1e-6)
        log.nontrivial()
    log.label(op)


# ------------------------------------------------------------------ IndepVarComp

@st.composite
def values(draw):
    k = draw(st.integers(0, 8))
    f = st.floats(-1e6, 1e6, allow_nan=False)
    if k <= 1:
        return ['float', draw(f)]
    if k == 2:
        return ['array', draw(st.lists(f, min_size=1, max_size=4))]
    if k == 3:
        return ['array2', [[draw(f) for _ in range(2)] for _ in range(draw(st.integers(1, 3)))]]
    if k == 4:
        return ['int', draw(st.integers(-9, 9))]
    if k == 5:
        return ['obj', draw(st.sampled_from(['text', '', None, True, False]))] if draw(st.booleans()) else \
            ['obj', draw(st.lists(st.integers(0, 3), max_size=3))]
    if k == 6:
        return ['obj', {'a': draw(st.integers(0, 3)), 'b': [1, 2]}]
    if k == 7:
        return ['npfloat', draw(f)]
    return ['array', [draw(f)]]


def real(v):
    k, x = v
    return x if k in ('float', 'int', 'obj') else np.float64(x) if k == 'npfloat' else np.array(x, float)


UN = [None, None, 'm', 'ft', 'degC', 'kg']


@st.composite
def indeps(draw):
    names = draw(st.lists(st.sampled_from(['x', 'y', 'a', 'ab', 'b:c', 'z_1', 'k']), min_size=1, max_size=4, unique=True))
    vs = []
    for n in names:
        v = draw(values())
        if v == ['obj', None]:
            v = ['obj', 'text']
        u = draw(st.sampled_from(UN)) if v[0] in ('float', 'array', 'array2', 'npfloat') else None
        vs.append([n, v, u, draw(values()) if draw(st.booleans()) else None])
    return dict(vars=vs, single=draw(st.booleans()), container=draw(st.sampled_from(['list', 'tuple', 'gen'])),
                promote=draw(st.booleans()), old=draw(st.integers(0, 5)) == 0,
                bad=draw(st.sampled_from([None] * 8 + [['str', 'abc'], ['tuple', []], ['tuple', ['x']], ['tuple', ['q', 1.0, {}, 2]],
                                                      ['list', ['q', 1.0]], ['none'], ['int'], ['noval'], ['name'], ['promotes']])),
                at=draw(st.integers(0, 4)))


def same(a, b):
    if isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and a.shape == b.shape and np.array_equal(a, b)
    return type(a) == type(b) and a == b if not isinstance(b, float) else float(a) == float(b) and np.ndim(a) == 0


def run_indep(spec, log):
    from openmdao.api import Component, Group, IndepVarComp, Problem
    from openmdao.components.param_comp import ParamComp
    cls = ParamComp if spec['old'] else IndepVarComp
    vs = spec['vars'][:1] if spec['single'] else spec['vars']
    bad = spec['bad']
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if bad:
            tups = [(n, real(v)) for n, v, u, _ in vs]
            item = {'str': lambda: bad[1], 'tuple': lambda: tuple(bad[1]), 'list': lambda: list(bad[1]), 'none': lambda: None,
                    'int': lambda: 0}.get(bad[0])
            try:
                if bad[0] == 'noval':
                    cls('x')
                elif bad[0] == 'name':
                    cls(3, 1.0)
                elif bad[0] == 'promotes':
                    cls('x', 1.0, promotes=['*'])
                else:
                    tups.insert(spec['at'] % (len(tups) + 1), item())
                    cls(tups)
            except ValueError as err:
                log.label('refused ' + bad[0])
                log.nontrivial()
                return
            check(False, '%s accepted the malformed argument %r among %r', cls.__name__, bad, tups)
        if spec['single']:
            n, v, u, _ = vs[0]
            comp = cls(n, real(v), **({'units': u} if u else {}))
        else:
            tups = [(n, real(v), {'units': u}) if u else (n, real(v)) for n, v, u, _ in vs]
            comp = cls({'list': list, 'tuple': tuple, 'gen': iter}[spec['container']](tups))

    class Sink(Component):
        def __init__(self):
            super(Sink, self).__init__()
            for i, (n, v, u, _) in enumerate(vs):
                if v[0] in ('float', 'npfloat', 'array', 'array2'):
                    self.add_param('p%d' % i, real(v), **({'units': u} if u else {}))
                else:
                    self.add_param('p%d' % i, real(v), pass_by_obj=True)
            self.add_output('o', 0.0)

        def solve_nonlinear(self, p, u, r):
            self.seen = [p['p%d' % i] for i in range(len(vs))]
            self.seen = [x.copy() if isinstance(x, np.ndarray) else x for x in self.seen]
            u['o'] = 1.0
    prob = Problem(root=Group())
    prob.root.add('c', comp, promotes=['*'] if spec['promote'] else None)
    s = prob.root.add('s', Sink())
    pre = '' if spec['promote'] else 'c.'
    for i, (n, v, u, _) in enumerate(vs):
        prob.root.connect(pre + n, 's.p%d' % i)
    prob.setup(check=False)
    cur = [real(v) for n, v, u, _ in vs]
    for step in range(2):
        prob.run()
        for i, (n, v, u, _) in enumerate(vs):
            check(same(prob[pre + n], cur[i]), '%s is %r after run, was set to %r', n, prob[pre + n], cur[i])
            check(same(s.seen[i], cur[i]), 'the receiver of %s (units %s) got %r, was set to %r', n, u, s.seen[i], cur[i])
            meta = prob.root.unknowns.metadata(pre + n)
            check(meta.get('units') == u, 'units of %s are %r, given %r', n, meta.get('units'), u)
        log.nontrivial()
        for i, (n, v, u, new) in enumerate(vs):
            if new is not None and new[0] == v[0] and np.shape(real(new)) == np.shape(real(v)):
                cur[i] = real(new)
                prob[pre + n] = cur[i]
    log.label('single' if spec['single'] else '%d variables' % len(vs))


# ------------------------------------------------------------------ UnitComp

PAIRS = [('m', 'ft', 1 / .3048, 0.), ('ft', 'inch', 12., 0.), ('degC', 'degK', 1., 273.15), ('degF', 'degC', 5 / 9., -160 / 9.),
         ('kg', 'g', 1000., 0.), ('km/h', 'm/s', 1 / 3.6, 0.), ('min', 's', 60., 0.), ('m', 'm', 1., 0.), ('N*m', 'kJ', 1e-3, 0.),
         (None, 'm', 1., 0.)]


@st.composite
def unitcomps(draw):
    shape = draw(st.sampled_from([1, 1, 3, (2,), (2, 2), (1,), (4,)]))
    size = int(np.prod(shape))
    f = st.floats(-1e3, 1e3, allow_nan=False)
    return dict(shape=shape if isinstance(shape, int) else list(shape), pair=draw(st.sampled_from(PAIRS)),
                vals=[[draw(f) for _ in range(size)] for _ in range(2)], names=draw(st.sampled_from([('i', 'o'), ('x', 'x_out'), ('a:b', 'b')])),
                same=draw(st.integers(0, 9)) == 0, modes=draw(st.lists(st.sampled_from(['fwd', 'rev', 'fd']), max_size=3)))


def run_unit(spec, log):
    from openmdao.api import Group, IndepVarComp, Problem, UnitComp
    src, dst, f, off = spec['pair']
    shape = spec['shape'] if isinstance(spec['shape'], int) else tuple(spec['shape'])
    a, b = spec['names']
    if spec['same']:
        try:
            UnitComp(shape, a, a, dst)
        except ValueError as err:
            check(a in str(err), 'error for equal names does not name them: %s', err)
            log.nontrivial()
            return
        check(False, 'UnitComp accepted %r as input and output', a)
    comp = UnitComp(shape=shape, param_name=a, out_name=b, units=dst)
    mk = lambda v: float(v[0]) if shape == 1 else np.array(v).reshape(shape)
    prob = Problem(root=Group())
    prob.root.add('p', IndepVarComp('v', mk(spec['vals'][0]), **({'units': src} if src else {})))
    prob.root.add('c', comp)
    prob.root.connect('p.v', 'c.' + a)
    prob.setup(check=False)
    for v in spec['vals']:
        prob['p.v'] = mk(v)
        prob.run()
        want = mk([x * f + off for x in v])
        check(np.shape(prob['c.' + b]) == np.shape(want), 'UnitComp output has shape %s, expected %s', np.shape(prob['c.' + b]), np.shape(want))
        check_close(prob['c.' + b], want, 'UnitComp %s -> %s of %s' % (src, dst, v), 1e-9, 1e-9)
        check(prob.root.unknowns.metadata('c.' + b).get('units') == dst, 'units of the output are %r', prob.root.unknowns.metadata('c.' + b).get('units'))
        for mode in spec['modes']:
            J = prob.calc_gradient(['p.v'], ['c.' + b], mode=mode)
            check_close(J, f * np.eye(len(v)), '%s derivative of UnitComp %s -> %s' % (mode, src, dst), 1e-9 if mode != 'fd' else 1e-2, 1e-9 if mode != 'fd' else 1e-2 * f)
            prob.run()
        log.nontrivial()
    log.label('%s->%s' % (src, dst))


FACETS = [
    Facet('linear-system', linsys, run_linsys, quick=400, thorough=6000, rule='totals compared with the inverse map'),
    Facet('constraint', constraints, run_constraint, quick=600, thorough=8000, rule='value compared, or malformed constraint refused'),
    Facet('independent', indeps, run_indep, quick=600, thorough=8000, rule='values delivered unchanged, or malformed argument refused'),
    Facet('unit', unitcomps, run_unit, quick=300, thorough=4000, rule='conversion and its derivative compared'),
]
