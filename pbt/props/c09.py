"""C09 drivers exchange consistently scaled values, bounds and gradients."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Facet, check, check_close, close
from pbt.models import nsize

ASSUMPTIONS = ['scaled = (model value + adder) * scaler, as documented; a negative scaler turns lower bounds into '
               'upper bounds', 'array scalers, adders and bounds have one entry per selected entry', 'serial execution']

VALS = st.integers(-16, 16).map(lambda i: i / 4.0)
SHAPES = [0, 0, [1], [2], [3], [4], [2, 2], [2, 3], [1, 2]]


@st.composite
def scaling(draw, n, shape, sel):
    """adder and scaler: scalar or one entry per selected entry."""
    s = st.sampled_from([1.0, 2.0, 0.5, -1.0, -0.25, 10.0, 1e-3, 1e3, 3.0])
    a = st.sampled_from([0.0, 0.0, 1.0, -2.5, 100.0])
    out = {}
    for key, strat in (('scaler', s), ('adder', a)):
        k = draw(st.integers(0, 3))
        if k == 0:
            out[key] = None
        elif k < 3:
            out[key] = draw(strat)
        else:
            out[key] = draw(st.lists(strat, min_size=n, max_size=n))
    return out


@st.composite
def bound(draw, n):
    k = draw(st.integers(0, 3))
    if k == 0:
        return None
    if k < 3:
        return draw(VALS)
    return draw(st.lists(VALS, min_size=n, max_size=n))


@st.composite
def select(draw, shape):
    n = nsize(shape)
    if draw(st.integers(0, 2)):
        return None
    return draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True))


@st.composite
def cases(draw):
    xs = [dict(n=draw(st.sampled_from(['x', 'xa', 'x1'])) + str(i), s=draw(st.sampled_from(SHAPES)),
               val=draw(VALS)) for i in range(draw(st.integers(1, 3)))]
    ys = [dict(n='y%d' % i, s=draw(st.sampled_from(SHAPES))) for i in range(draw(st.integers(1, 3)))]
    dvs, cons, objs = [], [], []
    for i, x in enumerate(xs):
        if i == 0 or draw(st.integers(0, 2)):
            idx = draw(select(x['s']))
            n = len(idx) if idx is not None else nsize(x['s'])
            dvs.append(dict(v=i, idx=idx, lower=draw(bound(n)), upper=draw(bound(n)),
                            form=draw(st.sampled_from(['list', 'array', 'tuple'])), **draw(scaling(n, x['s'], idx))))
    pool = [('y', i) for i in range(len(ys))] + ([('x', 0)] if draw(st.integers(0, 3)) == 0 else [])
    for k, (t, i) in enumerate(pool):
        s = (xs if t == 'x' else ys)[i]['s']
        idx = draw(select(s))
        n = len(idx) if idx is not None else nsize(s)
        d = dict(v=[t, i], idx=idx, form=draw(st.sampled_from(['list', 'array', 'tuple'])),
                 **draw(scaling(n, s, idx)))
        if draw(st.integers(0, 2)) == 0:
            objs.append(d)
        else:
            kind = draw(st.sampled_from(['lower', 'upper', 'both', 'equals']))
            b1, b2 = draw(bound(n)), draw(bound(n))
            b1 = 0.5 if b1 is None else b1
            b2 = 1.5 if b2 is None else b2
            d.update(lower=b1 if kind in ('lower', 'both') else None,
                     upper=b2 if kind in ('upper', 'both') else None,
                     equals=b1 if kind == 'equals' else None, linear=draw(st.booleans()))
            cons.append(d)
    ops = []
    for _ in range(draw(st.integers(2, 6))):
        k = draw(st.sampled_from(['set', 'set', 'set1', 'run', 'get', 'grad', 'grad', 'grad']))
        op = dict(op=k)
        if k == 'set':
            op.update(dv=draw(st.integers(0, 5)), vals=draw(st.lists(VALS, min_size=6, max_size=6)),
                      scalar=draw(st.booleans()))
        elif k == 'set1':
            op.update(dv=draw(st.integers(0, 5)), i=draw(st.integers(0, 5)), val=draw(VALS))
        elif k == 'grad':
            op.update(mode=draw(st.sampled_from(['auto', 'fwd', 'rev', 'fd'])),
                      fmt=draw(st.sampled_from(['dict', 'array'])), order=draw(st.booleans()))
        ops.append(op)
    return dict(xs=xs, ys=ys, dvs=dvs, cons=cons, objs=objs, ops=ops, seed=draw(st.integers(0, 99)),
                ln=draw(st.sampled_from(['gs', 'gmres', 'direct'])), nest=draw(st.booleans()),
                pbo=draw(st.sampled_from([None, None, None, None, 'text', [1, 2], 7])), setup2=draw(st.integers(0, 5)) == 0)


def shaped(s, v):
    v = np.ravel(v)
    return float(v[0]) if s == 0 else np.array(v, dtype=float).reshape(s)


class Ref(object):
    def __init__(self, spec):
        self.spec = spec
        rng = np.random.RandomState(spec['seed'])
        self.xs, self.ys = spec['xs'], spec['ys']
        self.A = [[rng.randint(-8, 9, (nsize(y['s']), nsize(x['s']))) / 8.0 for x in self.xs] for y in self.ys]
        self.x = [np.full(nsize(x['s']), x['val']) + np.arange(nsize(x['s'])) for x in self.xs]

    def y(self, j, x=None):
        x = x or self.x
        v = np.zeros(nsize(self.ys[j]['s']))
        for A, xi in zip(self.A[j], x):
            v = v + A.dot(xi + 0.1 * xi ** 2)
        return v

    def dy(self, j, i):
        return self.A[j][i] * (1 + 0.2 * self.x[i])[None, :]


def arr(v, n, default):
    if v is None:
        v = default
    return np.full(n, v) if np.ndim(v) == 0 else np.array(v, dtype=float)


def sel(d, n):
    return np.arange(n) if d['idx'] is None else np.array(d['idx'])


def build(spec, ref):
    from openmdao.api import (Problem, Group, Component, IndepVarComp, Driver, ScipyGMRES, DirectSolver,
                              LinearGaussSeidel)

    class Comp(Component):
        def __init__(self):
            super(Comp, self).__init__()
            for x in ref.xs:
                self.add_param(x['n'], shaped(x['s'], np.zeros(nsize(x['s']))))
            for y in ref.ys:
                self.add_output(y['n'], shaped(y['s'], np.zeros(nsize(y['s']))))
            if spec['pbo'] is not None:
                self.add_param('obj', spec['pbo'], pass_by_obj=True)
            self.seen = None

        def X(self, params):
            return [np.ravel(params[x['n']]) for x in ref.xs]

        def solve_nonlinear(self, params, unknowns, resids):
            for j, y in enumerate(ref.ys):
                unknowns[y['n']] = shaped(y['s'], ref.y(j, self.X(params)))
            if spec['pbo'] is not None:
                self.seen = params['obj']

        def linearize(self, params, unknowns, resids):
            X = self.X(params)
            return dict(((y['n'], x['n']), ref.A[j][i] * (1 + 0.2 * X[i])[None, :])
                        for j, y in enumerate(ref.ys) for i, x in enumerate(ref.xs))
    root = Group()
    box = root.add('sub', Group(), promotes=['*']) if spec['nest'] else root
    for i, x in enumerate(ref.xs):
        box.add('p%d' % i, IndepVarComp(x['n'], shaped(x['s'], ref.x[i])), promotes=['*'])
    if spec['pbo'] is not None:
        box.add('po', IndepVarComp('obj', spec['pbo'], pass_by_obj=True), promotes=['*'])
    comp = box.add('comp', Comp(), promotes=['*'])
    root.ln_solver = dict(gs=LinearGaussSeidel, gmres=ScipyGMRES, direct=DirectSolver)[spec['ln']]()
    prob = Problem(root=root, driver=Driver())
    drv = prob.driver

    def kw(d, extra=()):
        out = {}
        for key in ('scaler', 'adder') + tuple(extra):
            v = d.get(key)
            if v is not None:
                out[key] = np.array(v) if isinstance(v, list) else v
        if d['idx'] is not None:
            out['indices'] = dict(list=list, array=np.array, tuple=tuple)[d['form']](d['idx'])
        return out
    for d in spec['dvs']:
        drv.add_desvar(ref.xs[d['v']]['n'], **kw(d, ('lower', 'upper')))
    if spec['pbo'] is not None:
        drv.add_desvar('obj')

    def name(v):
        return (ref.xs if v[0] == 'x' else ref.ys)[v[1]]['n']
    for d in spec['objs']:
        drv.add_objective(name(d['v']), **kw(d))
    for d in spec['cons']:
        drv.add_constraint(name(d['v']), linear=d['linear'], **kw(d, ('lower', 'upper', 'equals')))
    prob.setup(check=False)
    if spec['setup2']:
        prob.setup(check=False)
    return prob, comp, name


def run(spec, log):
    ref = Ref(spec)
    prob, comp, name = build(spec, ref)
    drv = prob.driver
    prob.run()
    drv._problem = prob          # what the run() of a gradient driver does
    ran = [x.copy() for x in ref.x]            # x at the last run
    obj = spec['pbo']

    def scale(d, full, n):
        k = sel(d, n)
        m = len(k)
        return (full[k] + arr(d['adder'], m, 0.0)) * arr(d['scaler'], m, 1.0)

    # bounds
    for d in spec['dvs'] + spec['cons']:
        isdv = not isinstance(d['v'], list)
        v = ['x', d['v']] if isdv else d['v']
        n = nsize((ref.xs if v[0] == 'x' else ref.ys)[v[1]]['s'])
        m = len(sel(d, n))
        meta = (drv.get_desvar_metadata() if isdv else drv.get_constraint_metadata())[name(v)]
        sc, ad = arr(d['scaler'], m, 1.0), arr(d['adder'], m, 0.0)
        lo = arr(d['lower'], m, -np.inf)
        hi = arr(d['upper'], m, np.inf)
        slo, shi = np.minimum((lo + ad) * sc, (hi + ad) * sc), np.maximum((lo + ad) * sc, (hi + ad) * sc)
        lo_, hi_ = (lo + ad) * sc, (hi + ad) * sc
        want_lo = np.where(sc > 0, lo_, hi_)
        want_hi = np.where(sc > 0, hi_, lo_)
        del slo, shi
        for key, want, inf in (('lower', want_lo, -1), ('upper', want_hi, 1)):
            got = meta[key]
            if not isdv and got is None:
                got = inf * np.inf
            got = np.array(got, dtype=float) * np.ones(m)
            got = np.where(got * inf > 1e290, inf * np.inf, got)
            check_close(got, want, '%s bound of %s presented to the driver' % (key, name(v)))
        if not isdv:
            if d['equals'] is None:
                check(meta['equals'] is None, 'an inequality constraint is presented as an equality')
            else:
                check_close(np.array(meta['equals']) * np.ones(m), (arr(d['equals'], m, 0) + ad) * sc,
                            'equals of %s' % name(v))

    def full_of(v, x):
        return x[v[1]] if v[0] == 'x' else ref.y(v[1], x)

    def values():
        got = drv.get_desvars()
        for d in spec['dvs']:
            x = ref.xs[d['v']]
            check_close(got[x['n']], scale(d, ref.x[d['v']], nsize(x['s'])), 'get_desvars %s' % x['n'])
        check(set(got) == set(ref.xs[d['v']]['n'] for d in spec['dvs']) | (set(['obj']) if obj is not None else set()),
              'get_desvars names %s', sorted(got))
        for i, x in enumerate(ref.xs):
            check_close(np.ravel(prob[x['n']]), ref.x[i], 'model value of %s' % x['n'])

    def expect(d, x):
        v = d['v']
        if v[0] == 'x':
            x = ref.x
        n = nsize((ref.xs if v[0] == 'x' else ref.ys)[v[1]]['s'])
        return scale(d, full_of(v, x), n)

    def responses():
        got = drv.get_objectives()
        for d in spec['objs']:
            check_close(got[name(d['v'])], expect(d, ran), 'get_objectives %s' % name(d['v']))
        check(len(got) == len(spec['objs']), 'get_objectives names %s', sorted(got))
        flat = drv.get_objectives(return_type='array')
        want = [expect(d, ran) for d in spec['objs']]
        check_close(flat, np.concatenate(want) if want else np.zeros(0), "get_objectives(return_type='array')")
        for ctype in ('all', 'ineq', 'eq'):
            for lin in ('all', 'linear', 'nonlinear'):
                got = drv.get_constraints(ctype, lin)
                want = dict((name(d['v']), d) for d in spec['cons']
                            if (ctype == 'all' or (d['equals'] is not None) == (ctype == 'eq'))
                            and (lin == 'all' or d['linear'] == (lin == 'linear')))
                check(set(got) == set(want), 'get_constraints(%s, %s) names %s, expected %s', ctype, lin,
                      sorted(got), sorted(want))
                for n, d in want.items():
                    check_close(got[n], expect(d, ran), 'get_constraints %s' % n)
    values()
    responses()
    did = set()
    for op in spec['ops']:
        k = op['op']
        if k == 'run':
            prob.run()
            ran = [x.copy() for x in ref.x]
            if obj is not None:
                check(comp.seen == obj, 'the model saw the object %r, the driver set %r', comp.seen, obj)
        elif k == 'get':
            values()
            responses()
        elif k == 'set':
            d = spec['dvs'][op['dv'] % len(spec['dvs'])]
            x = ref.xs[d['v']]
            idx = sel(d, nsize(x['s']))
            m = len(idx)
            val = np.array(op['vals'][:m] + [1.0] * (m - 6))[:m]
            ref.x[d['v']] = ref.x[d['v']].copy()
            ref.x[d['v']][idx] = val / arr(d['scaler'], m, 1.0) - arr(d['adder'], m, 0.0)
            arg = val.copy()
            if m == 1 and x['s'] == 0 and op['scalar']:
                arg = float(val[0])
            drv.set_desvar(x['n'], arg)
            check_close(np.ravel(arg), val, 'the array handed to set_desvar')
            if obj is not None:
                obj = ['changed', op['dv']]
                drv.set_desvar('obj', obj)
                got = drv.get_desvars()['obj']
                check(got == obj, 'get_desvars returns %r for an object set to %r', got, obj)
            values()
            did.add('set')
            log.label('set idx' if d['idx'] else 'set', 'set %dd' % (0 if x['s'] == 0 else len(x['s'])))
        elif k == 'set1':
            d = spec['dvs'][op['dv'] % len(spec['dvs'])]
            x = ref.xs[d['v']]
            if d['idx'] is not None or x['s'] == 0:
                continue
            n = nsize(x['s'])
            i = op['i'] % n
            ref.x[d['v']] = ref.x[d['v']].copy()
            ref.x[d['v']][i] = op['val'] / arr(d['scaler'], n, 1.0)[i] - arr(d['adder'], n, 0.0)[i]
            drv.set_desvar(x['n'], op['val'], index=i)
            values()
            log.label('set one')
            did.add('set')
        else:
            if spec['pbo'] is not None:
                continue
            prob.run()
            ran = [x.copy() for x in ref.x]
            ins = list(spec['dvs'])
            outs = spec['objs'] + spec['cons']
            if not outs:
                continue
            if op['order']:
                ins.reverse()
                outs = outs[::-1]
            fmt = op['fmt']
            # known finding C09-fwd-scaler: forward gradients multiply every column by the whole array
            # scaler of the design variable (or fail to broadcast it); only that value is tolerated
            hazard = op['mode'] in ('fwd', 'auto') and not spec.get('strict') and \
                [d for d in ins if np.size(d['scaler']) > 1]
            try:
                J = drv.calc_gradient([ref.xs[d['v']]['n'] for d in ins], [name(d['v']) for d in outs],
                                      mode=op['mode'], return_format=fmt)
            except ValueError as err:
                if hazard and 'broadcast' in str(err):
                    log.label('array design variable scaler, fwd (known finding)')
                    prob.run()
                    continue
                raise
            rows = []
            rsize = [len(sel(d, nsize((ref.xs if d['v'][0] == 'x' else ref.ys)[d['v'][1]]['s']))) for d in outs]
            csize = [len(sel(e, nsize(ref.xs[e['v']]['s']))) for e in ins]
            for d in outs:
                v = d['v']
                row = []
                nr = nsize((ref.xs if v[0] == 'x' else ref.ys)[v[1]]['s'])
                for e in ins:
                    nc = nsize(ref.xs[e['v']]['s'])
                    if v[0] == 'x':
                        b = np.eye(nr) if v[1] == e['v'] else np.zeros((nr, nc))
                    else:
                        b = ref.dy(v[1], e['v'])
                    r, c = sel(d, nr), sel(e, nc)
                    raw = b[np.ix_(r, c)] * arr(d['scaler'], len(r), 1.0)[:, None]
                    b = raw / arr(e['scaler'], len(c), 1.0)[None, :]
                    if hazard and e in hazard and len(r) == len(c):
                        i, k = [q['v'] for q in outs].index(v), ins.index(e)
                        got = J[name(v)][ref.xs[e['v']]['n']] if fmt == 'dict' else \
                            J[np.ix_(range(sum(rsize[:i]), sum(rsize[:i + 1])),
                                     range(sum(csize[:k]), sum(csize[:k + 1])))]
                        wrong = raw / arr(e['scaler'], len(c), 1.0)[:, None]
                        if np.shape(got) == wrong.shape and not close(got, b, 1e-6, 1e-8) \
                                and close(got, wrong, 1e-6, 1e-8):
                            log.label('array design variable scaler, fwd (known finding)')
                            b = wrong
                    row.append(b)
                    if fmt == 'dict':
                        s = np.abs(b).max() if b.size else 1.0
                        check_close(J[name(v)][ref.xs[e['v']]['n']], b, 'gradient (%s, dict) of %s by %s' %
                                    (op['mode'], name(v), ref.xs[e['v']]['n']), *tol(op['mode'], s, d, e))
                rows.append(np.hstack(row))
            if fmt == 'array':
                want = np.vstack(rows)
                check(J.shape == want.shape, 'gradient array shape %s, expected %s', J.shape, want.shape)
                for d, ws, gs in zip(outs, rows, np.vsplit(J, np.cumsum([len(r) for r in rows])[:-1])):
                    check_close(gs, ws, 'gradient rows (%s, array) of %s' % (op['mode'], name(d['v'])),
                                *tol(op['mode'], np.abs(ws).max() if ws.size else 1.0, d, *ins))
            log.label('grad ' + op['mode'] + ' ' + fmt)
            did.add('grad')
            prob.run()
    log.nontrivial(len(did) > 0 and any(d['scaler'] not in (None, 1.0) or d['adder'] not in (None, 0.0)
                                        for d in spec['dvs'] + spec['objs'] + spec['cons']))


def tol(mode, s, *ds):
    """Tolerances: the error of an fd step is scaled by the largest scaling involved."""
    f = 1.0
    big = np.max(np.abs(arr(ds[0]['scaler'], 1, 1.0)))
    small = min(np.min(np.abs(arr(e['scaler'], 1, 1.0))) for e in ds[1:])
    f = big / small
    if mode == 'fd':
        return 1e-4, 1e-4 * max(1.0, f)
    return 1e-6, 1e-6 * max(1.0, f)


FACETS = [
    Facet('driver', cases, run, 1000, rule='a non-trivial scaling, and at least one set or gradient'),
]
