"""C19: MetaModel routes training data and inputs to the right surrogate columns."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Facet, check, check_close

ASSUMPTIONS = ['retraining happens at the first run after setup and whenever the train flag is set, as documented',
               'surrogates are given their own instance per output (either one each or the default, which is copied)']

PNAMES = ['x', 'y', 'a:b', 'train_len', 'trainer', 'x_fi2', 'w']
ONAMES = ['f', 'g', 'trained', 'out:b', 'h']
SHAPES = [None, None, (1,), (2,), (3,), (2, 2), (1, 3)]
KINDS = ['stub'] * 8 + [ 'kriging', 'surface', 'neighbor', 'pair']


@st.composite
def specs(draw):
    nfi = draw(st.sampled_from([0, 0, 0, 1, 2, 2, 3, 4]))   # 0: plain MetaModel
    np_ = draw(st.integers(1, 4))
    no = draw(st.integers(1, 3))
    pn = draw(st.permutations(PNAMES))[:np_]
    if nfi > 1 and 'x' in pn:
        pn = [p for p in pn if p != 'x_fi2']
    on = draw(st.permutations(ONAMES))[:no]
    params = [[n, draw(st.sampled_from(SHAPES))] for n in pn]
    outs = []
    for n in on:
        kind = draw(st.sampled_from(KINDS)) if nfi < 2 else draw(st.sampled_from(['stub'] * 8 + ['cokriging', 'pair']))
        shape = draw(st.sampled_from(SHAPES))
        if kind in ('surface', 'cokriging', 'pair'):
            shape = None
        outs.append([n, shape, kind, draw(st.booleans())])   # last: use the default surrogate where possible
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just('point'), st.integers(0, 10 ** 6)),
        st.tuples(st.just('train'), st.integers(0, 10 ** 6)),
        st.tuples(st.just('data only'), st.integers(0, 10 ** 6)),
        st.tuples(st.just('grad'), st.sampled_from(['fwd', 'rev', 'fd'])),
        st.tuples(st.just('partials'), st.just(0)),
        st.tuples(st.just('setup'), st.integers(0, 10 ** 6)),
        st.tuples(st.just('unequal'), st.integers(0, 10 ** 6)),
        st.tuples(st.just('copy'), st.just(0))), min_size=1, max_size=7))
    few = 1 if all(o[2] == 'stub' for o in outs) else 7
    return dict(nfi=nfi, params=params, outs=outs, order=draw(st.integers(0, 10 ** 6)), seed=draw(st.integers(0, 10 ** 6)),
                ops=[list(o) for o in ops], warm=draw(st.sampled_from([False, False, True])),
                forms=draw(st.lists(st.sampled_from(['list', 'array', 'arrays', 'int', 'nested']), min_size=1, max_size=6)),
                deliver=draw(st.sampled_from(['set', 'set', 'kwarg', 'connect'])), where=draw(st.sampled_from(['root', 'promoted', 'deep', 'renamed'])),
                dtype=draw(st.sampled_from(['user', 'user', 'user', 'fd', 'cs'])), counts=draw(st.lists(st.integers(*draw(st.sampled_from([(few, 7), (few, 12), (7, 12)]))), min_size=4, max_size=4)),
                connect_in=draw(st.booleans()))


LOG = []


def make_stub(pair):
    from openmdao.api import MultiFiSurrogateModel

    class Stub(MultiFiSurrogateModel):
        """Prediction depends on every entry of the training data, by position."""

        def train(self, x, y):
            self.digest([x], [y])

        def train_multifi(self, x, y):
            self.digest(x, y)

        def digest(self, X, Y):
            LOG.append('train')
            self.trained = True
            W = 0.
            off = 0.
            for k, (x, y) in enumerate(zip(X, Y)):
                x, y = np.array(x, float), np.array(y, float)
                assert x.ndim == 2 and y.ndim == 2, (x.shape, y.shape)
                assert len(x) == len(y), (x.shape, y.shape)
                w = np.cos(np.arange(len(x)) * .7 + k)
                W = W + np.dot((y * w[:, None]).T, x * (1 + np.arange(len(x)))[:, None]) / len(x)
                off = off + np.dot(np.sin(np.arange(len(x)) + k), y) + np.sum(x * np.arange(1, x.size + 1).reshape(x.shape)) * .01
            self.W, self.off = W, off

        def f(self, x):
            t = np.dot(self.W, x)
            return t + self.off + .05 * t ** 2

        def predict(self, x):
            LOG.append('predict')
            assert x.ndim == 1, x.shape
            y = self.f(x)
            if pair:
                return (float(y[0]), float(y[0]) * .1)
            return y

        def linearize(self, x):
            t = np.dot(self.W, x)
            return self.W * (1 + .1 * t)[:, None]
    return Stub()


def make(kind):
    from openmdao.api import KrigingSurrogate, NearestNeighbor, ResponseSurface
    from openmdao.surrogate_models.multifi_cokriging import MultiFiCoKrigingSurrogate, FloatMultiFiCoKrigingSurrogate
    if kind == 'kriging':
        return KrigingSurrogate()
    if kind == 'surface':
        return ResponseSurface()
    if kind == 'neighbor':
        return NearestNeighbor(interpolant_type='weighted')
    if kind == 'cokriging':
        return FloatMultiFiCoKrigingSurrogate(theta=.8)
    return make_stub(kind == 'pair')


def run(spec, log):
    import openmdao.api as api
    nfi, params, outs = spec['nfi'], spec['params'], spec['outs']
    levels = max(nfi, 1)
    size = lambda s: int(np.prod(s)) if s is not None else 1
    zero = lambda s: np.zeros(s) if s is not None else 0.0

    def fi(n, k):
        return n if k == 0 else '%s_fi%d' % (n, k + 1)

    nin = sum(size(s) for _, s in params)

    def form_of(j, k):
        f = spec['forms'][(j + k) % len(spec['forms'])]
        # co-Kriging needs nested, distinct points
        return 'list' if f == 'int' and any(o[2] == 'cokriging' for o in outs) else f

    calls = [0]

    def data(seed):
        """{(var, level): 2-D matrix of training values}"""
        calls[0] += 1
        r = np.random.RandomState((seed + 7919 * calls[0]) % 2 ** 31)
        res = {}
        for k in range(levels):
            for j, (n, s) in enumerate(params + [o[:2] for o in outs]):
                v = np.round(r.uniform(-2, 2, (spec['counts'][k], size(s))), 6 if any(o[2] == 'cokriging' for o in outs) else 2)
                if form_of(j, k) == 'int':
                    v = np.round(v * 5)
                res[n, k] = v
        if any(o[2] == 'cokriging' for o in outs):   # higher levels need nested designs
            base = None
            for k in range(levels - 1, -1, -1):
                m = spec['counts'][k]
                if base is not None:
                    m = min(m, base)
                for n, s in params + [o[:2] for o in outs]:
                    full = res[n, levels - 1]
                    res[n, k] = full[:m] if n in dict(params) else res[n, k][:m]
                base = m
        return res

    def formed(v, shape, form):
        v = np.array(v)
        if form == 'int':
            v = v.astype(int)
        rows = [row.reshape(shape) if shape is not None else row[0] for row in v]
        if shape is None:
            if form in ('array', 'arrays'):
                return np.array(rows)
            return [x.item() for x in rows]
        if form == 'array' or form == 'int':
            return np.array(rows)
        if form == 'arrays':
            return rows
        return [x.tolist() for x in rows]

    allvars = params + [o[:2] for o in outs]
    cur = data(spec['seed'])
    mm = api.MetaModel() if nfi == 0 else api.MultiFiMetaModel(nfi=nfi)
    mm.warm_restart = spec['warm']
    mm.deriv_options['type'] = spec['dtype']
    if spec['dtype'] == 'fd':
        mm.deriv_options['form'] = 'central'
    # the default surrogate: the kind of the first output that asks for it
    default = next((o[2] for o in outs if o[3]), None)
    if default is not None:
        mm.default_surrogate = make(default)
    kinds = {}
    decl = [('p', j) for j in range(len(params))] + [('o', j) for j in range(len(outs))]
    rr = np.random.RandomState(spec['order'])
    ranks = dict(zip(range(len(decl)), rr.permutation(len(decl))))
    # keep declared order of params and of outputs, interleave the two
    seq = [d for _, d in sorted(zip(sorted(ranks.values()), decl))]
    inter = []
    ps, os_ = [d for d in seq if d[0] == 'p'], [d for d in seq if d[0] == 'o']
    while ps or os_:
        src = ps if (ps and (not os_ or rr.rand() < .5)) else os_
        inter.append(src.pop(0))
    kwarg = spec['deliver'] == 'kwarg'
    for t, j in inter:
        if t == 'p':
            n, s = params[j]
            kw = {'training_data': formed(cur[n, 0], s, form_of(j, 0))} if kwarg else {}
            mm.add_param(n, zero(s), **kw)
        else:
            n, s, kind, usedef = outs[j]
            kw = {'training_data': formed(cur[n, 0], s, form_of(len(params) + j, 0))} if kwarg else {}
            if usedef and kind == default:
                kinds[n] = default
            else:
                kw['surrogate'] = make(kind)
                kinds[n] = kind
            mm.add_output(n, (0., 0.) if kind == 'pair' else zero(s), **kw)
    prob = api.Problem(root=api.Group())
    where = spec['where']
    if where == 'root':
        prob.root.add('mm', mm)
        path = 'mm.'
    elif where == 'promoted':
        prob.root.add('mm', mm, promotes=['*'])
        path = ''
    elif where == 'renamed':
        g = prob.root.add('g', api.Group(), promotes=['mm.*'])
        g.add('mm', mm)
        path = 'mm.'
    else:
        g = prob.root.add('g', api.Group())
        g.add('mm', mm, promotes=['*'])
        path = 'g.'
    for n, s in params:
        prob.root.add('i_' + n.replace(':', '_'), api.IndepVarComp('v', zero(s)))
        prob.root.connect('i_%s.v' % n.replace(':', '_'), path + n)
    src = {n: 'i_%s.v' % n.replace(':', '_') for n, _ in params}
    tsrc = {}
    if spec['deliver'] == 'connect':
        for j, (n, s) in enumerate(allvars):
            for k in range(levels):
                c = 't_%s_%d' % (n.replace(':', '_'), k)
                prob.root.add(c, api.IndepVarComp('d', list(formed(cur[n, k], s, form_of(j, k))), pass_by_obj=True))
                prob.root.connect(c + '.d', path + 'train:' + fi(n, k))
                tsrc[n, k] = c + '.d'
    of = [path + o[0] for o in outs if o[2] != 'pair']
    ofd = {path + o[0]: o for o in outs if o[2] != 'pair'}

    def deliver(first):
        for j, (n, s) in enumerate(allvars):
            for k in range(levels):
                val = formed(cur[n, k], s, form_of(j, k))
                if spec['deliver'] == 'connect':
                    prob[tsrc[n, k]] = list(val)   # the declared type of the training parameters
                elif not (first and kwarg and k == 0):
                    prob[path + 'train:' + fi(n, k)] = val

    prob.setup(check=False)
    deliver(True)
    point = np.round(np.random.RandomState(spec['seed'] + 1).uniform(-1.5, 1.5, nin), 2)

    def setpoint():
        idx = 0
        for n, s in params:
            v = point[idx:idx + size(s)]
            prob[src[n]] = v.reshape(s) if s is not None else float(v[0])
            idx += size(s)

    setpoint()
    acc = None       # data the surrogates have been trained on
    ref = {}
    pending = True   # training due at the next run
    fresh = True

    def expected_training():
        new = {k: v for k, v in cur.items()}
        if spec['warm'] and acc is not None:
            new = {k: np.vstack([acc[k], v]) for k, v in new.items()}
        return new

    def go(what):
        nonlocal acc, pending, ref
        LOG[:] = []
        prob.run()
        n = sum(1 for e in LOG if e == 'train')
        stubs = sum(1 for o in outs if o[2] in ('stub', 'pair'))
        check(n == (stubs if pending else 0), '%s: surrogates were trained %d times, expected %d', what, n, stubs if pending else 0)
        if pending:
            acc = expected_training()
            X = [np.hstack([acc[p, k] for p, _ in params]) for k in range(levels)]
            ref = {}
            for o in outs:
                s = make(o[2])
                Y = [acc[o[0], k] for k in range(levels)]
                if nfi < 2:
                    s.train(X[0], Y[0])
                else:
                    s.train_multifi(X, Y)
                ref[o[0]] = s
            pending = False
        judge(what)

    def judge(what):
        for n, s, kind, _ in outs:
            got = prob[path + n]
            want = ref[n].predict(point.copy())
            if kind == 'pair':
                check(isinstance(got, tuple) and len(got) == 2, '%s: output %s is %r, expected a pair', what, n, got)
                check_close(got, want, '%s: output %s' % (what, n), 1e-9, 1e-9)
                continue
            if s is None:
                check(np.ndim(got) == 0 or np.shape(got) == (1,), '%s: output %s has shape %s', what, n, np.shape(got))
            else:
                check(np.shape(got) == tuple(s), '%s: output %s has shape %s, declared %s', what, n, np.shape(got), s)
            check_close(np.ravel(got), np.ravel(want), '%s: output %s (%s)' % (what, n, kind), 1e-9, 1e-9)

    def jac(n):
        return np.asarray(ref[n].linearize(point.copy()))

    graded = 0
    go('first run')
    for op, arg in spec['ops']:
        if op == 'point':
            point = np.round(np.random.RandomState(arg).uniform(-1.5, 1.5, nin), 2)
            setpoint()
            go('new point')
        elif op == 'train':
            cur = data(arg)
            deliver(False)
            mm.train = True
            pending = True
            go('retraining')
            log.label('retrained')
        elif op == 'data only':
            cur = data(arg)
            deliver(False)
            go('new data without the flag')
        elif op == 'setup':
            if spec['warm']:
                continue
            cur = data(arg)
            prob.setup(check=False)
            deliver(False)
            setpoint()
            pending = True
            acc = None
            go('after setup')
            log.label('setup again')
        elif op == 'copy':
            continue
        elif op == 'unequal':
            v, k = allvars[arg % len(allvars)], arg // 7 % levels
            if spec['warm'] and any(o[2] == 'cokriging' for o in outs):
                continue
            keep = cur
            cur = dict(cur)
            cur[v[0], k] = cur[v[0], k][:-1]
            deliver(False)
            mm.train = True
            try:
                prob.run()
            except RuntimeError as err:
                check('same number of training points' in str(err), 'unequal training data: %s', err)
            else:
                check(False, '%d training points for %s at level %d where others have %d: not refused', len(cur[v[0], k]), v[0], k, len(keep[v[0], k]))
            cur = keep
            deliver(False)
            mm.train = True
            pending = True
            go('after a refused training')
            log.label('unequal')
        elif op == 'grad' and of:
            if spec['dtype'] == 'cs' and any(o[2] != 'stub' for o in outs):
                continue
            LOG[:] = []
            if any(o[2] == 'cokriging' for o in outs):   # defines no derivatives
                continue
            if any(o[2] == 'neighbor' for o in outs) and (arg == 'fd' or spec['dtype'] == 'fd'):
                continue
            J = prob.calc_gradient([src[n] for n, _ in params], of, mode=arg, return_format='dict')
            check('train' not in LOG, 'computing derivatives trained a surrogate')
            numeric = arg == 'fd' or spec['dtype'] == 'fd'
            for u in of:
                n = ofd[u][0]
                want = jac(n)
                idx = 0
                for p, s in params:
                    w = want[:, idx:idx + size(s)]
                    idx += size(s)
                    scale = np.abs(want).max() + np.abs(np.ravel(ref[n].predict(point.copy()))).max()
                    if numeric:
                        check_close(J[u][src[p]], w, 'd%s/d%s (%s, %s)' % (n, p, arg, ofd[u][2]), 1e-3, 3e-4 * (1 + scale))
                    else:
                        check_close(J[u][src[p]], w, 'd%s/d%s (%s, %s)' % (n, p, arg, ofd[u][2]), 1e-7, 1e-8 * (1 + scale))
            graded += 1
            if arg == 'fd':
                go('after fd')
        elif op == 'partials' and of:
            if spec['dtype'] == 'cs' and any(o[2] != 'stub' for o in outs) or any(o[2] == 'neighbor' for o in outs) and spec['dtype'] == 'fd':
                continue
            if any(o[2] == 'cokriging' for o in outs):
                continue
            res = prob.check_partial_derivatives(out_stream=None)
            res = res[mm.pathname]
            for o in outs:
                if o[2] == 'pair':
                    continue
                want = jac(o[0])
                idx = 0
                for p, s in params:
                    w = want[:, idx:idx + size(s)]
                    idx += size(s)
                    scale = np.abs(want).max() + np.abs(np.ravel(ref[o[0]].predict(point.copy()))).max()
                    numeric = spec['dtype'] != 'user'
                    tol = (1e-3, 3e-4 * (1 + scale)) if numeric else (1e-7, 1e-8 * (1 + scale))
                    check((o[0], p) in res, 'no partial of %s with respect to %s was checked (%s)', o[0], p, sorted(res))
                    check_close(res[o[0], p]['J_fd' if numeric else 'J_fwd'], w, 'partial d%s/d%s' % (o[0], p), *tol)
            go('after partials')
            graded += 1
    arr = sum(1 for _, s in params if s is not None and size(s) > 1)
    log.label(*(['fidelities %d' % nfi] + sorted(set(kinds.values())) + ['warm' if spec['warm'] else 'cold', spec['deliver']]))
    log.label('%d array inputs' % min(arr, 2))
    if graded:
        log.label('gradients')
    log.nontrivial(nin > 1 or len(outs) > 1 or nfi > 1)


FACETS = [
    Facet('routing', specs, run, quick=700, thorough=12000, rule='at least two input columns, two outputs or two fidelities'),
]
