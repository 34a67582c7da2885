"""C29 pyOptSparseDriver poses the declared optimization problem to pyoptsparse.

pyoptsparse itself is not installed: a recording stand-in with its interface
(Optimization, an optimizer class per name, a solution) takes its place, and plays
the optimizer: it evaluates functions and gradients at generated points and returns
a generated solution.
"""
import contextlib
import io
import sys
import types
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt.core import Facet, check, check_close
from pbt.models import nsize

ASSUMPTIONS = ['pyoptsparse is replaced by a stand-in that follows its documented interface: vector design variables, '
               'constraints lower <= g(x) <= upper, linear constraints lower <= J x <= upper without a constant, '
               'entries outside the declared wrt / coo pattern are zero',
               'scaled = (model value + adder) * scaler; scalers are positive or negative, non-zero',
               'array scalers of design variables only in reverse mode (known finding C09-fwd-scaler)',
               'serial execution']

VALS = st.integers(-12, 12).map(lambda i: i / 4.0)
SHAPES = [0, [1], [2], [3], [4], [5], [2, 2]]
GRAD = ('SLSQP', 'SNOPT', 'IPOPT', 'CONMIN')
NOGRAD = ('ALPSO', 'NOMAD', 'NSGA2')


# ---------------------------------------------------------------- the stand-in

class Con(object):
    def __init__(self, name, n, lower, upper, linear, wrt, jac):
        self.name, self.n, self.linear, self.jac = name, n, linear, jac
        self.wrt = None if wrt is None else list(wrt)
        self.lower = self.expand(lower)
        self.upper = self.expand(upper)
        self.value = np.zeros(n)

    def expand(self, v):
        if v is None:
            return [None] * self.n
        v = np.atleast_1d(v)
        if v.size == 1:
            return np.full(self.n, float(v[0]))
        if v.shape != (self.n,):
            raise RuntimeError('wrong size of bounds of %s: %s for %d' % (self.name, v.shape, self.n))
        return np.array(v, dtype=float)


class Optimization(object):
    def __init__(self, name, objfun, comm=None):
        self.name, self.objfun = name, objfun
        self.vars, self.constraints, self.objectives = {}, {}, []
        self.order, self.done = [], False

    def addVarGroup(self, name, nVars, type='c', value=0.0, lower=None, upper=None, scale=1.0, offset=0.0,
                    choices=None, **kw):
        if self.done or name in self.vars:
            raise RuntimeError('addVarGroup %s' % name)

        def full(v):
            if v is None:
                return np.full(nVars, np.nan)
            v = np.atleast_1d(v)
            if v.size == 1:
                return np.full(nVars, float(v.flat[0]))
            if v.shape != (nVars,):
                raise RuntimeError('wrong size of %s: %s for %d' % (name, v.shape, nVars))
            return np.array(v, dtype=float)
        self.order.append(name)
        self.vars[name] = dict(n=nVars, value=full(value), lower=full(lower), upper=full(upper))

    def finalizeDesignVariables(self):
        self.done = True

    def addObj(self, name, *args, **kw):
        self.objectives.append(name)

    def addConGroup(self, name, nCon, lower=None, upper=None, scale=1.0, linear=False, wrt=None, jac=None):
        if name in self.constraints:
            raise RuntimeError('addConGroup %s twice' % name)
        self.constraints[name] = Con(name, nCon, lower, upper, linear, wrt, jac)


class Solution(object):
    def __init__(self, dvs, inform):
        self.dvs = dvs
        self.optInform = {} if inform is None else {'value': inform, 'text': ''}

    def getDVs(self):
        return dict((k, v.copy()) for k, v in self.dvs.items())


PLAY = {}


class Opt(object):
    def __init__(self, *args, **kw):
        self.options = {}

    def setOption(self, name, value):
        self.options[name] = value

    def __call__(self, prob, sens=None, sensStep=None, sensMode=None, storeHistory=None, hotStart=None, **kw):
        return PLAY['play'](self, prob, sens, sensStep, storeHistory, hotStart)


def install():
    mod = sys.modules.get('pyoptsparse')
    if mod is None:
        mod = types.ModuleType('pyoptsparse')
        mod.Optimization = Optimization
        for n in ('ALPSO', 'CONMIN', 'FSQP', 'IPOPT', 'NLPQLP', 'NSGA2', 'PSQP', 'SLSQP', 'SNOPT', 'NLPY_AUGLAG',
                  'NOMAD'):
            setattr(mod, n, type(n, (Opt,), {}))
        sys.modules['pyoptsparse'] = mod
    from openmdao.drivers.pyoptsparse_driver import pyOptSparseDriver
    return pyOptSparseDriver


# ---------------------------------------------------------------- generated problems

@st.composite
def scaling(draw, n):
    s = st.sampled_from([1.0, 2.0, 0.5, -1.0, 4.0, 10.0])
    a = st.sampled_from([0.0, 0.0, 1.0, -2.5, 3.0])
    out = {}
    for key, strat in (('scaler', s), ('adder', a)):
        k = draw(st.integers(0, 4))
        out[key] = None if k < 2 else draw(strat) if k < 4 else draw(st.lists(strat, min_size=n, max_size=n))
    return out


@st.composite
def bound(draw, n):
    return draw(VALS) if draw(st.booleans()) else draw(st.lists(VALS, min_size=n, max_size=n))


def ordered(b1, b2):
    """The second bound, made no less than the first."""
    if b1 is None or b2 is None:
        return b2
    if np.ndim(b1) == 0 and np.ndim(b2) == 0:
        return b1 + abs(b2)
    return (np.asarray(b1) + np.abs(b2)).tolist()


@st.composite
def select(draw, n, chance=2):
    if draw(st.integers(0, chance)):
        return None
    return draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True))


@st.composite
def problems(draw, faults=False, active=False):
    xs = []
    mode = draw(st.sampled_from(['fwd', 'rev']))
    for i in range(draw(st.integers(1, 3))):
        s = draw(st.sampled_from(SHAPES))
        idx = draw(select(nsize(s)))
        n = len(idx) if idx else nsize(s)
        b1, b2 = draw(st.none() | bound(n)), draw(st.none() | bound(n))
        xs.append(dict(s=s, idx=idx, prom=draw(st.booleans()), lower=b1, upper=ordered(b1, b2), val=draw(VALS), **draw(scaling(n))))
        if mode == 'fwd' and isinstance(xs[-1]['scaler'], list):
            # known finding C09-fwd-scaler
            xs[-1]['scaler'] = xs[-1]['scaler'][0]
    ys = []
    for j in range(draw(st.integers(2, 5))):
        ins = []
        for k in range(draw(st.integers(1, 2 if j else 1))):
            src = ['y', draw(st.integers(0, j - 1))] if j and draw(st.integers(0, 2)) == 0 else \
                ['x', draw(st.integers(0, len(xs) - 1))]
            shape = (xs if src[0] == 'x' else ys)[src[1]]['s']
            n = nsize(shape)
            ind = None if shape == 0 else draw(st.none() | st.lists(st.integers(0, n - 1), min_size=1, max_size=4))
            ins.append(dict(src=src, idx=ind, prom=draw(st.booleans()),
                            imp=src[0] == 'x' and xs[src[1]]['prom'] and not any(i['src'] == src for i in ins) and
                            draw(st.booleans())))
        ys.append(dict(s=draw(st.sampled_from(SHAPES)), ins=ins, lin=draw(st.booleans()),
                       grp=draw(st.integers(0, 2))))
    order = draw(st.permutations(list(range(len(ys)))))
    opt = 'SNOPT' if active else draw(st.sampled_from(GRAD + NOGRAD[:1]))
    nobj = 1
    if not active and draw(st.integers(0, 5)) == 0 and len(ys) > 2:
        opt, nobj = 'NSGA2', 2
    objs, cons = [], []
    for k, j in enumerate(order):
        n = nsize(ys[j]['s'])
        if k < nobj:
            objs.append(dict(y=j, idx=[draw(st.integers(0, n - 1))] if n > 1 or draw(st.booleans()) else None,
                             **draw(scaling(1))))
            continue
        if draw(st.integers(0, 4)) == 0:
            continue
        idx = draw(select(n))
        m = len(idx) if idx else n
        kind = draw(st.sampled_from(['lower', 'upper', 'both', 'both', 'equals']))
        b1, b2 = draw(bound(m)), draw(bound(m))
        cons.append(dict(y=j, idx=idx, kind=kind, lower=b1, upper=ordered(b1, b2), lin=draw(st.integers(0, 3)) > 0,
                         tol=draw(st.sampled_from([None, 0.0, 0.25, 1, 2.0, 'arr'])) if active else
                         draw(st.sampled_from([None, None, None, 0.5])),
                         **draw(scaling(m))))
    if draw(st.integers(0, 4)) == 0:
        # a design variable is constrained itself
        i = draw(st.integers(0, len(xs) - 1))
        n = nsize(xs[i]['s'])
        idx = draw(select(n))
        m = len(idx) if idx else n
        b1, b2 = draw(bound(m)), draw(bound(m))
        cons.append(dict(x=i, idx=idx, kind=draw(st.sampled_from(['lower', 'upper', 'both', 'equals'])), lower=b1,
                         upper=ordered(b1, b2), lin=draw(st.booleans()), tol=None, **draw(scaling(m))))
    npts = draw(st.integers(1, 3))
    return dict(xs=xs, ys=ys, objs=objs, cons=cons, opt=opt, seed=draw(st.integers(0, 99)),
                pts=[draw(st.lists(VALS, min_size=12, max_size=12)) for _ in range(npts + 1)],
                grads=draw(st.lists(st.sampled_from([True, True, False]), min_size=npts, max_size=npts)),
                mode=mode,
                method=draw(st.sampled_from(['openmdao', 'openmdao', 'openmdao', 'pyopt_fd', 'snopt_fd'])),
                inform=draw(st.sampled_from([0, 1, 2, 3, 13, None])),
                faults=draw(st.lists(st.sampled_from(['', '', 'analysis', 'value', 'lin', 'linvalue']), min_size=npts,
                                     max_size=npts)) if faults else None,
                twice=draw(st.integers(0, 3)) == 0)


class Ref(object):
    def __init__(self, spec):
        self.spec = spec
        rng = np.random.RandomState(spec['seed'])
        self.A, self.b = [], []
        for y in spec['ys']:
            n = nsize(y['s'])
            self.A.append([rng.randint(-8, 9, (n, self.width(i))) / 8.0 for i in y['ins']])
            self.b.append(rng.randint(-8, 9, n) / 4.0)
        self.x = [np.full(nsize(x['s']), x['val']) + np.arange(nsize(x['s'])) / 2.0 for x in spec['xs']]

    def srcs(self, i):
        return (self.spec['xs'] if i['src'][0] == 'x' else self.spec['ys'])[i['src'][1]]

    def width(self, i):
        return len(i['idx']) if i['idx'] is not None else nsize(self.srcs(i)['s'])

    def evaluate(self):
        """Values and derivatives of all outputs with respect to all design variables."""
        out, grad = [], []
        for j, y in enumerate(self.spec['ys']):
            v = self.b[j].copy()
            g = [np.zeros((len(v), len(x))) for x in self.x]
            for A, i in zip(self.A[j], y['ins']):
                k = i['src'][1]
                full = self.x[k] if i['src'][0] == 'x' else out[k]
                ind = np.arange(len(full)) if i['idx'] is None else np.array(i['idx'])
                u = full[ind]
                D = A if y['lin'] else A * (1 + 0.2 * u)[None, :]
                v = v + A.dot(u if y['lin'] else u + 0.1 * u ** 2)
                for q in range(len(self.x)):
                    if i['src'][0] == 'x':
                        if q == k:
                            np.add.at(g[q], (slice(None), ind), D)
                    else:
                        g[q] += D.dot(grad[k][q][ind])
            out.append(v)
            grad.append(g)
        return out, grad

    def affine(self, j):
        y = self.spec['ys'][j]
        return y['lin'] and all(i['src'][0] == 'x' or self.affine(i['src'][1]) for i in y['ins'])


def shaped(s, v):
    v = np.ravel(v)
    return float(v[0]) if s == 0 else np.array(v, dtype=float).reshape(s)


def expand(v, n, default):
    return np.full(n, default if v is None else v) if v is None or np.ndim(v) == 0 else np.array(v, dtype=float)


class Q(object):
    """A quantity the driver knows: a design variable, objective or constraint."""

    def __init__(self, d, name, size):
        self.d, self.name = d, name
        self.idx = np.arange(size) if d['idx'] is None else np.array(d['idx'])
        self.n = len(self.idx)
        self.s = expand(d['scaler'], self.n, 1.0)
        self.a = expand(d['adder'], self.n, 0.0)

    def scaled(self, full):
        return (full[self.idx] + self.a) * self.s

    def unscaled(self, v):
        return v / self.s - self.a

    def kw(self):
        out = {}
        for k in ('scaler', 'adder'):
            v = self.d[k]
            if v is not None:
                out[k] = np.array(v) if isinstance(v, list) else v
        if self.d['idx'] is not None:
            out['indices'] = list(self.d['idx'])
        return out

    def bounds(self, lower, upper):
        lo, up = expand(lower, self.n, -np.inf), expand(upper, self.n, np.inf)
        lo, up = (lo + self.a) * self.s, (up + self.a) * self.s
        return np.minimum(lo, up), np.maximum(lo, up)


def user(b):
    return np.array(b) if isinstance(b, list) else b


def build(spec, ref, fault):
    from openmdao.api import Problem, Group, Component, IndepVarComp
    from openmdao.api import AnalysisError
    drv_class = install()

    def uname(j, k):
        i = spec['ys'][j]['ins'][k]
        # linked to its source by its name, or by a connection
        return 'x%d' % i['src'][1] if i.get('imp') and spec['ys'][j]['grp'] != 2 else 'u%d_%d' % (j, k)

    class Comp(Component):
        def __init__(self, j):
            super(Comp, self).__init__()
            self.j = j
            y = spec['ys'][j]
            for k, i in enumerate(y['ins']):
                w = ref.width(i)
                src = ref.srcs(i)
                val = np.zeros(w) if i['idx'] is not None else shaped(src['s'], np.zeros(nsize(src['s'])))
                kw = {'src_indices': list(i['idx'])} if i.get('imp') and i['idx'] is not None else {}
                self.add_param(uname(j, k), val, **kw)
            self.add_output('y%d' % j, shaped(y['s'], np.zeros(nsize(y['s']))))

        def inputs(self, params):
            return [np.ravel(params[uname(self.j, k)]) for k in range(len(spec['ys'][self.j]['ins']))]

        def solve_nonlinear(self, params, unknowns, resids):
            if self.j == fault.get('comp'):
                if fault.get('now') == 'analysis':
                    raise AnalysisError('planned failure')
                if fault.get('now') == 'value':
                    raise ValueError('planned failure')
            y = spec['ys'][self.j]
            v = ref.b[self.j].copy()
            for A, u in zip(ref.A[self.j], self.inputs(params)):
                v = v + A.dot(u if y['lin'] else u + 0.1 * u ** 2)
            unknowns['y%d' % self.j] = shaped(y['s'], v)

        def linearize(self, params, unknowns, resids):
            if self.j == fault.get('comp') and fault.get('now') == 'lin':
                raise AnalysisError('planned failure')
            if self.j == fault.get('comp') and fault.get('now') == 'linvalue':
                raise ValueError('planned failure')
            y = spec['ys'][self.j]
            return dict((('y%d' % self.j, uname(self.j, k)), A if y['lin'] else A * (1 + 0.2 * u)[None, :])
                        for k, (A, u) in enumerate(zip(ref.A[self.j], self.inputs(params))))

    prob = Problem(root=Group())
    root = prob.root
    names = {}
    for i, x in enumerate(spec['xs']):
        root.add('i%d' % i, IndepVarComp('x%d' % i, shaped(x['s'], ref.x[i])), promotes=['*'] if x['prom'] else None)
        names['x', i] = 'x%d' % i if x['prom'] else 'i%d.x%d' % (i, i)
    groups = {}
    for j, y in enumerate(spec['ys']):
        # 0: at the root; 1: in a group that promotes; 2: in a group that doesn't
        g = y['grp']
        if g and g not in groups:
            groups[g] = root.add('g%d' % g, Group(), promotes=['*'] if g == 1 else None)
        proms = [uname(j, k) for k, i in enumerate(y['ins']) if i['prom'] or (i.get('imp') and g != 2)]
        if j % 2:
            proms.append('y%d' % j)
        (groups[g] if g else root).add('c%d' % j, Comp(j), promotes=proms)
        pre = 'g2.' if g == 2 else ''
        names['y', j] = pre + ('y%d' % j if j % 2 else 'c%d.y%d' % (j, j))
    for j, y in enumerate(spec['ys']):
        g = y['grp']
        pre = 'g2.' if g == 2 else ''
        for k, i in enumerate(y['ins']):
            if i.get('imp') and g != 2:
                continue
            u = uname(j, k)
            tgt = pre + (u if i['prom'] else 'c%d.%s' % (j, u))
            kw = {} if i['idx'] is None or i.get('imp') else {'src_indices': list(i['idx'])}
            root.connect(names[tuple(i['src'])], tgt, **kw)
    prob.driver = drv_class()
    prob.driver.options['optimizer'] = spec['opt']
    prob.driver.options['print_results'] = False
    root.ln_solver.options['mode'] = spec['mode']
    return prob, names


def dense(jac, shape, what):
    """The matrix pyoptsparse makes of a returned derivative, and its pattern."""
    if isinstance(jac, dict):
        check(tuple(jac['shape']) == shape, '%s: shape %s, expected %s', what, jac['shape'], shape)
        row, col, data = jac['coo']
        check(len(row) == len(col) == len(data), '%s: %d rows, %d columns, %d values', what, len(row), len(col),
              len(data))
        out = np.zeros(shape)
        for r, c, v in zip(row, col, data):
            out[int(r), int(c)] += v
        return out, list(zip([int(r) for r in row], [int(c) for c in col]))
    check_close(np.shape(jac), shape, what + ' shape')
    return np.array(jac, dtype=float), None


def recorder():
    from openmdao.recorders.base_recorder import BaseRecorder

    class Memory(BaseRecorder):
        def __init__(self):
            super(Memory, self).__init__()
            self.got = []

        def record_metadata(self, group):
            pass

        def record_iteration(self, params, unknowns, resids, metadata):
            self.got.append(dict(coord=tuple(metadata['coord']),
                                 u=dict((k, np.ravel(unknowns[k]).copy()) for k in unknowns)))

        def record_derivatives(self, derivs, metadata):
            pass
    return Memory()


def run_problem(spec, log):
    ref = Ref(spec)
    fault = {}
    if spec['faults']:
        fault['comp'] = spec['seed'] % len(spec['ys'])
    # build() orders the groups by the data flow, which may then need a cycle
    # between groups: those models are not feed-forward
    prob, names = build(spec, ref, fault)
    level = {}
    for j, y in enumerate(spec['ys']):
        level.setdefault(y['grp'] or ('c', j), set()).add(j)
    node = dict((j, y['grp'] or ('c', j)) for j, y in enumerate(spec['ys']))
    edges = set((node[i['src'][1]], node[j]) for j, y in enumerate(spec['ys']) for i in y['ins']
                if i['src'][0] == 'y' and node[i['src'][1]] != node[j])
    seen = set(node.values())
    while True:
        free = set(n for n in seen if not any(b == n and a in seen for a, b in edges))
        if not free:
            break
        seen -= free
    if seen:
        return
    drv = prob.driver
    dvs = [Q(x, names['x', i], nsize(x['s'])) for i, x in enumerate(spec['xs'])]
    objs = [Q(o, names['y', o['y']], nsize(spec['ys'][o['y']]['s'])) for o in spec['objs']]
    cons = [Q(c, names['x', c['x']], nsize(spec['xs'][c['x']]['s'])) if 'x' in c else
            Q(c, names['y', c['y']], nsize(spec['ys'][c['y']]['s'])) for c in spec['cons']]

    def value(q, vals):
        return q.scaled(ref.x[q.d['x']] if 'x' in q.d else vals[q.d['y']])

    def gradient(q, grads):
        if 'x' not in q.d:
            return grads[q.d['y']]
        return [np.eye(len(x)) if i == q.d['x'] else np.zeros((len(ref.x[q.d['x']]), len(x)))
                for i, x in enumerate(ref.x)]
    for q in dvs:
        drv.add_desvar(q.name, lower=user(q.d['lower']), upper=user(q.d['upper']), **q.kw())
    for q in objs:
        drv.add_objective(q.name, **q.kw())
    for q in cons:
        q.lin = q.d['lin'] and ('x' in q.d or ref.affine(q.d['y']))
        q.lo = None if q.d['kind'] in ('upper', 'equals') else q.d['lower']
        q.up = None if q.d['kind'] in ('lower', 'equals') else q.d['upper']
        kw = q.kw()
        if q.d['kind'] == 'equals':
            kw['equals'] = user(q.d['lower'])
        else:
            kw.update(lower=user(q.lo), upper=user(q.up))
        q.tol = q.d['tol']
        if q.tol == 'arr':
            q.tol = np.arange(q.n) / 2.0
        if q.tol is not None:
            kw['active_tol'] = q.tol
        drv.add_constraint(q.name, linear=q.lin, **kw)
        if q.d['kind'] == 'equals':
            q.lo = q.up = q.d['lower']
    active = spec['opt'] == 'SNOPT'
    method = spec['method']
    if method == 'snopt_fd' and spec['opt'] != 'SNOPT':
        method = 'pyopt_fd'
    drv.options['gradient method'] = method
    rec = recorder()
    drv.add_recorder(rec)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        prob.setup(check=False)
    state = dict(runs=0, records=0)

    def point(k):
        v = spec['pts'][k]
        return [np.array([v[(3 * q + i) % 12] for i in range(dv.n)]) for q, dv in enumerate(dvs)]

    def assign(pt):
        for x, dv, p in zip(ref.x, dvs, pt):
            x[dv.idx] = p
        return dict((dv.name, (p + dv.a) * dv.s) for dv, p in zip(dvs, pt))

    def play(opt, op, sens, step, hist, hot):
        state['runs'] += 1
        check(type(opt).__name__ == spec['opt'], 'ran optimizer %s, asked for %s', type(opt).__name__, spec['opt'])
        check(opt.options == drv.opt_settings, 'optimizer settings %r, asked for %r', opt.options, drv.opt_settings)
        check(hist == drv.hist_file and hot == drv.hotstart_file, 'history file %r, hot start %r', hist, hot)
        check(op.order == [d.name for d in dvs], 'design variables %s, declared %s', op.order, [d.name for d in dvs])
        for d, x in zip(dvs, ref.x):
            v = op.vars[d.name]
            check(v['n'] == d.n, 'design variable %s has %d entries, declared %d', d.name, v['n'], d.n)
            check_close(v['value'], d.scaled(x), 'initial value of %s' % d.name)
            lo, up = d.bounds(d.d['lower'], d.d['upper'])
            for what, got, want in (('lower', v['lower'], lo), ('upper', v['upper'], up)):
                huge = np.isinf(want)
                check_close(np.where(huge, 0.0, got), np.where(huge, 0.0, want), '%s bound of %s' % (what, d.name))
                check(bool(np.all(np.where(huge, np.abs(got) >= 1e20, True))), '%s bound of %s: %s, none declared',
                      what, d.name, got)
        check(op.objectives == [o.name for o in objs], 'objectives %s, declared %s', op.objectives,
              [o.name for o in objs])
        check(sorted(op.constraints) == sorted(c.name for c in cons), 'constraints %s, declared %s',
              sorted(op.constraints), sorted(c.name for c in cons))
        patterns = {}
        for c in cons:
            con = op.constraints[c.name]
            check(con.n == c.n, 'constraint %s has %d entries, declared %d', c.name, con.n, c.n)
            check(con.linear == c.lin, 'constraint %s linear: %s', c.name, con.linear)
            if isinstance(con.jac, dict) and not c.lin:
                for d in dvs:
                    if d.name in con.jac:
                        patterns[c.name, d.name] = dense(con.jac[d.name], (c.n, d.n),
                                                         'declared d %s / d %s' % (c.name, d.name))[1]
        if method == 'openmdao':
            check(callable(sens), 'sens is %r', sens)
        elif method == 'pyopt_fd':
            check(sens == 'FD' and step == prob.root.deriv_options['step_size'], 'sens %r step %r', sens, step)
        else:
            check(sens is None and step == prob.root.deriv_options['step_size'], 'sens %r step %r', sens, step)
        npts = len(spec['pts']) - 1
        for k in range(npts):
            xd = assign(point(k))
            what = 'point %d: ' % k
            fault['now'] = now = spec['faults'][k] if spec['faults'] else ''
            funcs, fail = op.objfun(dict((n, v.copy()) for n, v in xd.items()))
            bad = now in ('analysis', 'value')
            check(bool(fail) == bad, '%sfail is %r, %s', what, fail, 'the model failed' if bad else 'it ran')
            vals, grads = ref.evaluate()
            if now != 'value':
                state['records'] += 1
            check(len(rec.got) == state['records'], '%s%d evaluations are recorded, %d were made', what, len(rec.got),
                  state['records'])
            if not bad:
                check(rec.got[-1]['coord'][1:] == (spec['opt'], (drv.iter_count,)), '%srecorded as %s in iteration %s',
                      what, rec.got[-1]['coord'], drv.iter_count)
                for i, x in enumerate(ref.x):
                    check_close(rec.got[-1]['u'][names['x', i]], x, '%srecorded %s' % (what, names['x', i]))
                for j, y in enumerate(vals):
                    check_close(rec.got[-1]['u'][names['y', j]], y, '%srecorded %s' % (what, names['y', j]))
                for q in objs + cons:
                    check(q.name in funcs, '%sno value of %s', what, q.name)
                    check_close(np.ravel(funcs[q.name]), value(q, vals), what + q.name, 1e-9, 1e-9)
            elif now == 'analysis':
                for q in objs + cons:
                    check(q.name in funcs and np.size(funcs[q.name]) == q.n, '%sno value of %s', what, q.name)
            for c in cons:
                con = op.constraints[c.name]
                con.value = value(c, vals)
                lo, up = c.bounds(c.lo, c.up)
                shift = 0.0
                if c.lin:
                    # pyoptsparse takes the constraint to be J x
                    check(isinstance(con.jac, dict), 'linear constraint %s without its derivatives', c.name)
                    lin = np.zeros(c.n)
                    for d in dvs:
                        if con.wrt is None or d.name in con.wrt:
                            check(d.name in con.jac, 'linear constraint %s: no derivative wrt %s', c.name, d.name)
                            lin += dense(con.jac[d.name], (c.n, d.n), 'd %s / d %s' % (c.name, d.name))[0] \
                                .dot(xd[d.name])
                    shift = lin - con.value
                for side, got, want in (('lower', con.lower, lo), ('upper', con.upper, up)):
                    for i in range(c.n):
                        if np.isinf(want[i]):
                            check(got[i] is None or abs(got[i]) >= 1e20, '%s bound of %s[%d] is %r, none declared',
                                  side, c.name, i, got[i])
                        else:
                            w = want[i] + (shift[i] if c.lin else 0.0)
                            check(got[i] is not None, 'no %s bound of %s[%d]', side, c.name, i)
                            check_close(got[i], w, '%s%s bound of %s[%d]%s' %
                                        (what, side, c.name, i, ' (linear)' if c.lin else ''), 1e-7, 1e-7)
            if bad or not callable(sens) or not spec['grads'][k]:
                continue
            J, fail = sens(dict((n, v.copy()) for n, v in xd.items()), funcs)
            if now == 'linvalue':
                check(fail, '%sgradient fail is %r, the linearization failed', what, fail)
                continue
            check(J, '%sno gradient: %s', what, out.getvalue()[-600:])
            check(bool(fail) == (now == 'lin'), '%sgradient fail is %r%s', what, fail,
                  ', the linearization failed' if now == 'lin' else '')
            for q in objs + [c for c in cons if not c.lin]:
                con = op.constraints.get(q.name)
                check(q.name in J, '%sno gradient of %s', what, q.name)
                off = set()
                if active and con is not None and q.tol is not None and q not in objs:
                    lo, up = q.bounds(q.lo, q.up)
                    tol = np.full(q.n, q.tol) if np.ndim(q.tol) == 0 else q.tol
                    off = set(i for i in range(q.n) if con.value[i] > lo[i] + tol[i] and con.value[i] < up[i] - tol[i])
                    if off:
                        log.label('inactive')
                for d, g in zip(dvs, gradient(q, grads)):
                    want = g[np.ix_(q.idx, d.idx)] * q.s[:, None] / d.s[None, :]
                    w = '%sd %s / d %s' % (what, q.name, d.name)
                    used = con is None or con.wrt is None or d.name in con.wrt
                    if not used:
                        check_close(want, np.zeros_like(want), w + ' (not declared)', 1e-8, 1e-8)
                        log.label('sparse: pair left out')
                        continue
                    check(d.name in J[q.name], '%s is missing', w)
                    got, pat = dense(J[q.name][d.name], (q.n, d.n), w)
                    decl = patterns.get((q.name, d.name))
                    if now != 'lin':
                        check(pat == decl, '%s: returned entries %s, declared %s', w, pat, decl)
                    if pat is not None:
                        log.label('sparse: pattern')
                    if now == 'lin':
                        continue
                    for i in range(q.n):
                        if i in off and not np.any(got[i]):
                            continue
                        check_close(got[i], want[i], '%s row %d' % (w, i), 1e-7, 1e-7)
                    if np.any(want):
                        log.nontrivial((spec['seed'], k))
        fault['now'] = ''
        return Solution(assign(point(npts)), spec['inform'])

    drv.opt_settings = {'Major': 3} if spec['seed'] % 3 == 0 else {}
    if spec['seed'] % 4 == 0:
        drv.hist_file = 'h.txt'
    elif spec['seed'] % 4 == 1:
        drv.hotstart_file = 'g.txt'
    PLAY['play'] = play
    log.label(spec['opt'])
    log.label('gradients: ' + method)
    for c in cons:
        log.label(('linear ' if c.lin else '') + c.d['kind'])
    out = io.StringIO()
    for run in range(2 if spec['twice'] else 1):
        with contextlib.redirect_stdout(out):
            prob.run()
        check(state['runs'] == run + 1, 'the optimizer ran %d times in %d runs', state['runs'], run + 1)
        vals, _ = ref.evaluate()
        for i, x in enumerate(spec['xs']):
            check_close(np.ravel(prob[names['x', i]]), ref.x[i], 'final %s' % names['x', i])
        for j in range(len(spec['ys'])):
            check_close(np.ravel(prob[names['y', j]]), vals[j], 'final %s' % names['y', j])
        ok = spec['inform'] is not None and spec['inform'] <= 2
        check(drv.exit_flag == (1 if ok else 0), 'exit flag %r for status %r', drv.exit_flag, spec['inform'])
        check(drv.pyopt_solution is not None, 'no solution kept')
    prob.cleanup()


FACETS = [
    Facet('problem', problems, run_problem, 1500,
          rule='generated feed-forward models (indexed and promoted connections, groups), design variables, '
               'objectives and nonlinear / linear constraints with scaling, indices and bounds, against an analytic '
               'reference at generated points; non-trivial: a non-zero gradient was compared'),
    Facet('active', lambda: problems(active=True), run_problem, 800,
          rule='the same with SNOPT and active_tol; same non-triviality'),
    Facet('faults', lambda: problems(faults=True), run_problem, 800,
          rule='the same with analysis errors and other exceptions in the model or its linearization; same '
               'non-triviality'),
]
