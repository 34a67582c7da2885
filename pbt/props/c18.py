"""C18: surrogate models interpolate their data and differentiate consistently."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Facet, check, check_close

ASSUMPTIONS = ['training points are pairwise separated by at least 3 % of the range and not on a common hyperplane',
               'Kriging regularises nearly singular correlation matrices, so exact interpolation is required where the matrix has a '
               'condition number below 1e6; for smooth data, to 2 % of the range of the data, otherwise',
               'hyperparameters found by the optimiser are taken as given; that they are the best ones is not judged',
               'gradients are judged where the set of nearest neighbours does not change']


def points(r, n, d, sep=.03):
    """n separated points of the unit cube."""
    out = []
    k = 0
    while len(out) < n:
        x = r.uniform(0, 1, d)
        k += 1
        if all(np.abs(x - y).max() > sep for y in out) or k > 3000:
            out.append(x)
    return np.array(out)


def outputs(r, X, m, kind):
    cols = []
    d = X.shape[1]
    for j in range(m):
        w = r.uniform(-1, 1, d)
        u = X.dot(w)
        if kind == 'noise':
            cols.append(r.uniform(-1, 1, len(X)))
        elif kind == 'sin':
            cols.append(np.sin(4 * u + j))
        elif kind == 'linear':
            cols.append(u + j)
        else:
            cols.append(u + (X ** 2).dot(r.uniform(-1, 1, d)))
    if m > 1 and r.randint(3) == 0:
        cols[1] = -cols[0]       # outputs that oppose one another
    return np.array(cols).T * 10. ** r.randint(-3, 4) + r.choice([0., 0., 5., -100.])


def numgrad(f, x, h):
    cols = []
    for i in range(x.size):
        e = np.zeros(x.size)
        e[i] = h[i]
        cols.append((np.ravel(f(x + e)) - np.ravel(f(x - e))) / (2 * h[i]))
    return np.array(cols).T


def unchanged(a, b, what):
    check(a.shape == b.shape and np.array_equal(a, b), '%s changed by the surrogate: %s -> %s', what, b, a)


def base(draw, nmin, nmax, dmax):
    d = draw(st.integers(1, dmax))
    return dict(d=d, n=draw(st.integers(nmin, nmax)) + d, m=draw(st.sampled_from([1, 1, 2, 3])), seed=draw(st.integers(0, 10 ** 6)),
                kind=draw(st.sampled_from(['noise', 'sin', 'linear', 'quad'])),
                xscale=[draw(st.sampled_from([.01, 1., 300.])) for _ in range(d)],
                xshift=[draw(st.sampled_from([0., 7., -50.])) for _ in range(d)],
                history=draw(st.lists(st.sampled_from(['predict', 'linearize', 'train-other', 'train']), max_size=4)),
                change=draw(st.sampled_from(['permute', 'yscale', 'xscale', 'none'])),
                yfac=draw(st.sampled_from([2., .01, 50.])), yoff=draw(st.sampled_from([0., 3., -20.])))


def data(spec):
    r = np.random.RandomState(spec['seed'])
    U = points(r, spec['n'], spec['d'])
    Y = outputs(r, U, spec['m'], spec['kind'])
    scale, shift = np.array(spec['xscale']), np.array(spec['xshift'])
    return r, U * scale + shift, Y, scale, shift


def histories(sur, spec, X, Y, r, scale, shift, single=True):
    """operations before the state that is judged; the last training is on (X, Y)."""
    for h in spec['history']:
        x = r.uniform(0, 1, spec['d']) * scale + shift
        if h == 'predict':
            sur.predict(x)
        elif h == 'linearize':
            sur.linearize(x)
        elif h == 'train-other':
            Z = points(r, spec['n'], spec['d']) * scale * 3 + shift
            sur.train(Z, Y[::-1] * 2 + 1)
            sur.predict(x)
        else:
            sur.train(X, Y)
    if 'train-other' in spec['history']:
        sur.train(X, Y)


def changed(spec, r, X, Y, scale, shift):
    """A transformed training set and the map of its predictions back."""
    c = spec['change']
    if c == 'permute':
        p = r.permutation(len(X))
        return X[p], Y[p], lambda x: x, lambda y: y
    if c == 'yscale':
        return X, Y * spec['yfac'] + spec['yoff'] * np.ptp(Y), lambda x: x, lambda y: (y - spec['yoff'] * np.ptp(Y)) / spec['yfac']
    if c == 'xscale':
        s = 10. ** r.randint(-1, 2, spec['d'])
        return X * s + scale, Y, lambda x: x * s + scale, lambda y: y
    return X, Y, lambda x: x, lambda y: y


# ------------------------------------------------------------------ Kriging

@st.composite
def krigings(draw):
    s = base(draw, 2, 9, draw(st.sampled_from([3, 3, 3, 6])))
    s.update(rmse=draw(st.booleans()), nugget=draw(st.sampled_from([None, None, None, 1e-6, 1e-3, 'array'])),
             float=draw(st.integers(0, 4)) == 0)
    return s


def run_kriging(spec, log):
    from openmdao.surrogate_models.kriging import FloatKrigingSurrogate, KrigingSurrogate
    r, X, Y, scale, shift = data(spec)
    if spec['float']:
        Y = Y[:, :1]
    n, m = Y.shape
    kw = {}
    nug = 10 * np.finfo(float).eps
    if spec['nugget'] == 'array':
        nug = kw['nugget'] = np.linspace(1e-8, 1e-5, n)
    elif spec['nugget']:
        nug = kw['nugget'] = spec['nugget']
    cls = FloatKrigingSurrogate if spec['float'] else KrigingSurrogate
    rmse = spec['rmse'] and not spec['float']
    make = lambda: cls(eval_rmse=spec['rmse'], **kw) if not spec['float'] else cls(**kw)
    sur = make()
    X0, Y0 = X.copy(), Y.copy()
    try:
        sur.train(X, Y)
        if not spec['float']:
            histories(sur, spec, X, Y, r, scale, shift)
    except ValueError as err:
        check('optimization failed' in str(err), 'training Kriging failed: %s', err)
        log.label('hyperparameter search failed')
        return
    unchanged(X, X0, 'training points')
    unchanged(Y, Y0, 'training outputs')
    # simple Kriging with the same correlation parameters
    xm, xs, ym, ys = X.mean(0), X.std(0), Y.mean(0), Y.std(0)
    Z, V = (X - xm) / xs, (Y - ym) / ys
    th = np.asarray(sur.thetas)
    corr = lambda A: np.exp(-(((A[:, None, :] - Z[None]) ** 2) * th).sum(2))
    R = corr(Z)
    R[np.diag_indices(n)] = 1 + nug
    cond = np.linalg.cond(R)
    rng = np.ptp(Y, axis=0)
    good = cond < 1e6
    tol = 2e-3 * rng if good else None
    mean = lambda x: np.ravel((sur.predict(x)[0] if rmse else sur.predict(x)))
    probes = [X[i] for i in range(n)] + [r.uniform(-.2, 1.2, spec['d']) * scale + shift for _ in range(4)]
    if good:
        A = np.linalg.solve(R, V)
        sig2 = np.einsum('ij,ij->j', V, A) / n * ys ** 2
    for k, x in enumerate(probes):
        x0 = x.copy()
        p = mean(x)
        unchanged(x, x0, 'prediction point')
        check(p.shape == (m,), 'prediction has shape %s, expected %d values', p.shape, m)
        q = corr(((x - xm) / xs)[None])
        if good:
            want = ym + ys * q.dot(A)[0]
            check(np.all(np.abs(p - want) <= tol), 'Kriging predicts %s at %s, simple Kriging with theta %s gives %s', p, x, th, want)
        if k < n and not spec['nugget']:
            lim = 2e-3 * rng if good else .02 * rng if spec['kind'] != 'noise' else np.inf
            check(np.all(np.abs(p - Y[k]) <= lim), 'Kriging predicts %s at training point %s, output there %s (theta %s)', p, x, Y[k], th)
        if rmse:
            s = sur.predict(x)[1]
            check(np.shape(s) == (1, m), 'the error estimate of one point has shape %s, expected (1, %d)', np.shape(s), m)
            check(np.all(s >= 0), 'negative error estimate %s', s)
            if good:
                want = np.sqrt(np.maximum(0, (1 - q.dot(np.linalg.solve(R, q.T))[0, 0]) * sig2))
                check(np.all(np.abs(s[0] - want) <= 2e-3 * np.sqrt(sig2) + 1e-12), 'Kriging error at %s is %s, simple Kriging gives %s', x, s, want)
            if k < n and not spec['nugget'] and good:
                check(np.all(s <= 2e-3 * np.sqrt(sig2) + 1e-12), 'error estimate at training point %s is %s', x, s)
        h = 1e-4 * scale
        J = sur.linearize(x)
        check(np.shape(J) == (m, spec['d']), 'Jacobian has shape %s', np.shape(J))
        G = numgrad(mean, x, h)
        if good or spec['kind'] != 'noise':
            size = np.abs(G * scale).max(1)[:, None] + rng[:, None]
            check(np.all(np.abs(J - G) * scale <= (1e-3 + 2e-5 * th.max()) * size), 'Jacobian %s at %s, differences of the prediction give %s', J, x, G)
    # several points at once
    if not spec['float']:
        P = np.array(probes)
        got = sur.predict(P)
        if rmse:
            check(np.shape(got[1]) == (len(P), m), 'error estimates of %d points have shape %s, expected (%d, %d)', len(P),
                  np.shape(got[1]), len(P), m)
            check_close(got[1], np.array([sur.predict(x)[1][0] for x in probes]), 'errors at several points', 1e-3, 1e-3 * rng.max())
            got = got[0]
        check(np.max(np.abs(got - np.array([mean(x) for x in probes])) / rng) < 1e-6, 'predictions of several points differ from single ones')
    # the same data in another form
    X2, Y2, fx, fy = changed(spec, r, X, Y, scale, shift)
    sur2 = make()
    try:
        sur2.train(X2, Y2)
    except ValueError:
        return
    if good and np.allclose(sur2.thetas, th, rtol=1e-3):
        for x in probes:
            p = sur2.predict(fx(x))
            p = np.ravel(p[0] if rmse else p)
            check(np.all(np.abs(fy(p) - mean(x)) <= 1e-2 * rng), 'after %s of the training data the prediction at %s is %s, before %s',
                  spec['change'], x, fy(p), mean(x))
        log.label(spec['change'])
    log.label('well conditioned' if good else 'ill conditioned')
    log.nontrivial(good or spec['kind'] != 'noise')


# ------------------------------------------------------------------ nearest neighbours

@st.composite
def neighbours(draw):
    t = draw(st.sampled_from(['linear', 'weighted', 'rbf', 'rbf']))
    s = base(draw, 5, 12, draw(st.sampled_from([3, 5])) if t == "linear" else 7 if t == 'rbf' else draw(st.sampled_from([4, 4, 6])))
    s['type'] = t
    s['n'] = max(s['n'], 8)
    if draw(st.integers(0, 3)) == 0:
        s['leaves'] = draw(st.integers(1, 5))
    if t == 'rbf':
        s['k'] = draw(st.integers(3, 7))
        s['comp'] = draw(st.sampled_from([-3, -2, -1, 0, 1, 1, 2, 2, 3, 3, 4, 4]))
        s['default'] = draw(st.integers(0, 4)) == 0
    elif t == 'weighted':
        s['k'] = draw(st.integers(1, 6))
        s['eff'] = draw(st.sampled_from([0, 0, 2, 3, 4]))
        s['default'] = draw(st.booleans())
    s['two'] = draw(st.booleans())
    s['near'] = draw(st.sampled_from([0., 9e-6, 1e-7]))
    return s


def run_neighbour(spec, log):
    from openmdao.surrogate_models.nearest_neighbor import NearestNeighbor
    r, X, Y, scale, shift = data(spec)
    n, m, d, t = spec['n'], spec['m'], spec['d'], spec['type']
    kw, call = {}, {}
    if 'leaves' in spec:
        kw['num_leaves'] = spec['leaves']
    k = d + 1
    if t == 'rbf':
        k = 5 if spec['default'] else spec['k']
        if not spec['default']:
            kw.update(n=k, comp=spec['comp'])
    elif t == 'weighted':
        k = 5 if spec['default'] else spec['k']
        if not spec['default']:
            call = dict(n=k, dist_eff=spec['eff'])
    comp = 2 if t == 'rbf' and spec['default'] else spec.get('comp')
    eff = (0 if spec.get('default') else spec.get('eff', 0)) or d + 1
    sur = NearestNeighbor(interpolant_type=t, **kw)
    X0, Y0 = X.copy(), Y.copy()
    try:
        sur.train(X, Y)
        histories(sur, spec, X, Y, r, scale, shift)
    except np.linalg.LinAlgError:
        return
    unchanged(X, X0, 'training points')
    unchanged(Y, Y0, 'training outputs')
    lo, w = X.min(0), np.ptp(X, axis=0)
    Z = (X - lo) / w
    rng = np.ptp(Y, axis=0)

    def near(x):
        dist = np.sqrt((((x - lo) / w - Z) ** 2).sum(1))
        i = np.argsort(dist)
        return i[:k], dist[i[:k]], (dist[i[k]] - dist[i[k - 1]] if k < n else 1.)
    probes = [X[i] for i in range(n)] + [r.uniform(.1, .9, d) * scale + shift for _ in range(4)]
    probes += [X[i] + 2e-3 * w * r.uniform(.7, 1, d) for i in r.randint(0, n, 2)]
    for q, x in enumerate(probes):
        x0 = x.copy()
        p = sur.predict(x, **call)
        unchanged(x, x0, 'prediction point')
        check(np.size(p) == m, 'prediction has shape %s, expected %d values', np.shape(p), m)
        p = np.ravel(p)
        idx, dist, gap = near(x)
        size = rng.max()
        cond = 1.
        if t == 'linear':
            M = np.hstack([np.ones((k, 1)), Z[idx]])
            cond = np.linalg.cond(M)
            if cond > 1e4:
                continue
            coef = np.linalg.solve(M, Y[idx])
            want = np.concatenate([[1], (x - lo) / w]).dot(coef)
            if gap > 1e-9:
                check(np.all(np.abs(p - want) <= 1e-8 * cond * (rng + np.abs(want))), 'linear interpolation at %s gives %s, the plane through the nearest '
                      'points %s', x, p, want)
            size = max(rng.max(), np.abs(coef[1:]).max())
        elif t == 'weighted' and gap > 1e-9:
            if dist[0] == 0:
                want = Y[idx[0]]
            else:
                wt = dist ** -float(eff)
                want = wt.dot(Y[idx]) / wt.sum()
            check(np.all(np.abs(p - want) <= 1e-8 * rng), 'weighted interpolation at %s gives %s, expected %s (n=%d, power %s)', x, p, want, k, eff)
        if q < n:
            check(np.all(np.abs(p - Y[q]) <= 1e-6 * (1 + cond) * np.maximum(rng, 1e-9 * np.abs(Y).max())), '%s interpolation gives %s at training point %s, output there %s', t, p, x, Y[q])
            if t == 'linear' or (t == 'rbf' and comp == 0) or (t == 'weighted' and eff == 1):
                continue
        # gradient
        if gap < 1e-3 or (q >= n and dist[0] < 1e-3) or (t == 'rbf' and (dist[-1] - dist[-2]) < 1e-3):
            continue
        if t == 'rbf' and q < n and dist[1] < 1e-2:
            continue
        h = 1e-5 * w
        if spec['two']:
            # the gradient is asked for at a point next to the one of the last prediction
            sur.predict(lo + (x - lo) * (1 + spec['near']), **call)
        xq = x.copy()
        J = sur.linearize(x, **call)
        unchanged(x, xq, 'point of linearize')
        check(np.shape(J) == (m, d), 'Jacobian of %s has shape %s, expected (%d, %d)', t, np.shape(J), m, d)
        J = np.array(J)
        G = numgrad(lambda y: sur.predict(y, **call), x, h)
        G2 = numgrad(lambda y: sur.predict(y, **call), x, 2 * h)
        err = np.abs(G - G2).max(0) * w
        # (rounding of large outputs is magnified by the difference step)
        lim = (2e-4 * (size + np.abs(G * w).max()) + 10 * err) + 10 * np.finfo(float).eps * np.abs(Y).max() / 1e-5
        check(np.all(np.abs(J - G) * w <= lim), 'Jacobian of %s%s at %s is %s, differences of the prediction give %s', t,
              '' if t != 'rbf' else ' (comp %s, %d inputs)' % (comp, d), x, J, G)
        log.label('gradient ' + t)
        log.nontrivial()
    P = np.array([np.array(x) for x in probes])
    P0 = P.copy()
    got = sur.predict(P, **call)
    unchanged(P, P0, 'prediction points')
    check(np.shape(got) == (len(P), m), 'predictions of %d points have shape %s', len(P), np.shape(got))
    single = np.array([np.ravel(sur.predict(x.copy(), **call)) for x in probes])
    check(np.all(np.abs(got - single) <= 1e-9 * (np.abs(single) + rng)), 'predictions of several points differ from single ones')
    X2, Y2, fx, fy = changed(spec, r, X, Y, scale, shift)
    sur2 = NearestNeighbor(interpolant_type=t, **kw)
    sur2.train(X2, Y2)
    for x in probes[n:]:
        idx, dist, gap = near(x)
        if gap < 1e-6 or (t == 'linear' and np.linalg.cond(np.hstack([np.ones((k, 1)), Z[idx]])) > 1e4):
            continue
        a, b = fy(np.ravel(sur2.predict(fx(x), **call))), np.ravel(sur.predict(x, **call))
        check(np.all(np.abs(a - b) <= 1e-6 * (np.abs(b) + rng)), 'after %s of the training data the %s prediction at %s is %s, before %s',
              spec['change'], t, x, a, b)
    log.label(t)


# ------------------------------------------------------------------ response surface

@st.composite
def surfaces(draw):
    s = base(draw, 0, 8, draw(st.sampled_from([4, 4, 7])))
    s['exact'] = draw(st.integers(0, 3)) > 0
    s['aslist'] = draw(st.booleans())
    return s


def run_surface(spec, log):
    from openmdao.surrogate_models.response_surface import ResponseSurface
    d, m = spec['d'], spec['m']
    K = (d + 1) * (d + 2) // 2
    spec = dict(spec, n=K + spec['n'] - d)
    r, X, Y, scale, shift = data(spec)
    scale = np.ones(d)
    shift = np.array([min(5., max(-5., s)) for s in spec['xshift']])
    X = (X - np.array(spec['xshift'])) / np.array(spec['xscale']) * 2 + shift
    pairs = [(i, j) for i in range(d) for j in range(i, d)]
    c0, c1, c2 = r.uniform(-1, 1, m), r.uniform(-1, 1, (d, m)), r.uniform(-1, 1, (len(pairs), m))
    f = lambda x: c0 + x.dot(c1) + sum(x[i] * x[j] * c2[k] for k, (i, j) in enumerate(pairs))

    def g(x):
        J = c1.T.copy()
        for k, (i, j) in enumerate(pairs):
            J[:, i] += x[j] * c2[k]
            J[:, j] += x[i] * c2[k]
        return J
    if spec['exact']:
        Y = np.array([f(x) for x in X])
    sur = ResponseSurface()
    X0, Y0 = X.copy(), Y.copy()
    sur.train(X, Y)
    histories(sur, spec, X, Y, r, scale, shift)
    unchanged(X, X0, 'training points')
    unchanged(Y, Y0, 'training outputs')
    basis = lambda x: np.concatenate([[1], x, [x[i] * x[j] for i, j in pairs]])
    M = np.array([basis(x) for x in X])
    cond = np.linalg.cond(M)
    if cond > 1e7:
        return
    coef = np.linalg.lstsq(M, Y, rcond=None)[0]
    rng = np.abs(Y).max()
    for x in list(X[:3]) + [r.uniform(-1, 3, d) + shift for _ in range(4)]:
        x0 = x.copy()
        p = sur.predict(x)
        unchanged(x, x0, 'prediction point')
        p = np.ravel(p)
        want = f(x) if spec['exact'] else basis(x).dot(coef)
        tol = 1e-11 * cond * (rng + np.abs(want).max()) + 1e-9 * rng
        check(p.shape == want.shape and np.all(np.abs(p - want) <= tol), 'response surface gives %s at %s, expected %s', p, x, want)
        J = sur.linearize(x)
        unchanged(x, x0, 'point of linearize')
        check(np.shape(J) == (m, d), 'Jacobian has shape %s', np.shape(J))
        G = g(x) if spec['exact'] else numgrad(lambda y: basis(y).dot(coef), x, 1e-3 * np.ones(d))
        check(np.all(np.abs(J - G) <= tol * 10 + 1e-6 * np.abs(G).max()), 'Jacobian of the response surface at %s is %s, expected %s', x, J, G)
    p = r.permutation(len(X))
    sur2 = ResponseSurface()
    sur2.train(X[p], Y[p])
    x = r.uniform(-1, 3, d) + shift
    check(np.all(np.abs(sur2.predict(x) - sur.predict(x)) <= tol + 1e-7 * np.abs(sur.predict(x))), 'the order of training points changes the response surface')
    log.nontrivial()
    log.label('exact' if spec['exact'] else 'least squares')


# ------------------------------------------------------------------ co-Kriging

@st.composite
def cokrigings(draw):
    d = draw(st.integers(1, 2))
    nl = draw(st.integers(1, 3))
    top = draw(st.integers(5, 7))
    return dict(d=d, nl=nl, top=top, extra=[draw(st.integers(2, 5)) for _ in range(nl - 1)], seed=draw(st.integers(0, 10 ** 6)),
                theta=draw(st.sampled_from([None, 'float', 'list', 'array', 'range', 'ranges', 'rangearray'])), regr=draw(st.sampled_from(['constant', 'constant', 'linear'])),
                rho=draw(st.sampled_from(['constant', 'constant', 'linear'])), api=draw(st.sampled_from(['surrogate', 'float', 'model'])),
                twice=draw(st.booleans()), permute=draw(st.booleans()), tol=draw(st.sampled_from([None, None, None, 1e-2, 1e-1, 1e-4])), range=draw(st.sampled_from([None, None, .1, .5])))


def run_cokriging(spec, log):
    from openmdao.surrogate_models.multifi_cokriging import (FloatMultiFiCoKrigingSurrogate, MultiFiCoKriging,
                                                              MultiFiCoKrigingSurrogate)
    r = np.random.RandomState(spec['seed'])
    d, nl = spec['d'], spec['nl']
    total = spec['top'] + sum(spec['extra'])
    Xall = points(r, total, d, .04)
    fn = [lambda x, a=a: np.sin(5 * x.sum(1) + .2 * a) * (1 + .3 * a) + a * x[:, 0] for a in range(nl)]
    # lowest fidelity first, each level nested at the end of the level below
    X, Y = [], []
    start = 0
    for lvl in range(nl):
        X.append(Xall[start:].copy())
        Y.append(fn[lvl](X[-1]))
        start += spec['extra'][lvl] if lvl < nl - 1 else 0
    # correlation lengths short enough for matrices that can be inverted
    th = {None: None, 'range': None, 'ranges': None, 'rangearray': None, 'float': 30., 'list': [20. + 15 * i for i in range(nl)],
          'array': np.linspace(25., 45., d)}[spec['theta']]
    if spec['theta'] == 'list':
        th = [t * np.ones(d) for t in th]
    kw = dict(regr=spec['regr'], rho_regr=spec['rho'], theta=th)
    how = dict((k, spec.get(v)) for k, v in (('tolerance', 'tol'), ('initial_range', 'range')) if spec.get(v))
    low, high = [np.full(d, 1e-5)] * nl, [np.full(d, 50.)] * nl     # the documented defaults
    if spec['theta'] in ('range', 'ranges', 'rangearray'):
        low = [np.full(d, 10. + (3 * i if spec['theta'] == 'ranges' else 0)) for i in range(nl)]
        if spec['theta'] == 'rangearray':
            low = [low[0] + 4 * np.arange(d)] * nl
        high = [a * (1.5 + spec['seed'] % 3) for a in low]
        for key, val in [('theta0', [(a + b) / 2 for a, b in zip(low, high)]), ('thetaL', low), ('thetaU', high)]:
            kw[key] = [v.tolist() for v in val] if spec['theta'] == 'ranges' else val[0].copy() if spec['theta'] == 'rangearray' or d > 1 else float(val[0][0])
    p, q = (1 if spec['regr'] == 'constant' else d + 1), (1 if spec['rho'] == 'constant' else d + 1)
    if spec['top'] <= p + q + 1:
        return

    def build():
        if spec['api'] == 'model':
            return MultiFiCoKriging(**dict(kw, theta=[t.copy() for t in th] if isinstance(th, list) else th))
        return (MultiFiCoKrigingSurrogate if spec['api'] == 'surrogate' else FloatMultiFiCoKrigingSurrogate)(**dict(kw, **how))

    def train(s, X, Y):
        if spec['api'] == 'model':
            a, b = list(X), list(Y)
            s.fit(a, b, **dict(('tol' if k == 'tolerance' else k, v) for k, v in how.items()))
            check(all(x is y for x, y in zip(b, Y)) and all(x is y for x, y in zip(a, X)), 'fit changed the lists it was given')
        elif nl == 1:
            s.train(X[0], Y[0].reshape(-1, 1))
        else:
            # surrogates take the highest fidelity first
            s.train_multifi(X[::-1], [y.reshape(-1, 1) for y in Y[::-1]])
    model = lambda s: s if spec['api'] == 'model' else s.model

    def predict(s, x):
        if spec['api'] == 'model':
            y, mse = s.predict(np.array([x]))
            return float(y[0, 0]), float(np.sqrt(np.abs(mse[0, 0]))), float(mse[0, 0])
        out = s.predict(x)
        if spec['api'] == 'float':
            check(np.size(out) == 1, 'the float surrogate predicts %r', out)
            return float(np.ravel(out)[0]), None, None
        return float(out[0]), float(out[1]), None
    sur = build()
    Xc, Yc = [x.copy() for x in X], [y.copy() for y in Y]
    if spec['twice']:
        train(sur, [x * .8 + .1 for x in X], [np.cos(9 * y) for y in Y])
        predict(sur, Xall[0])
    train(sur, X, Y)
    for a, b in zip(X + Y, Xc + Yc):
        unchanged(a, b, 'training data')
    thetas = [np.ravel(t) for t in model(sur).theta]
    if spec['twice']:
        fresh = build()
        train(fresh, X, Y)
        for a, b in zip(thetas, [np.ravel(t) for t in model(fresh).theta]):
            check_close(a, b, 'correlation parameters after training a second time', 1e-6, 1e-9)
    if any(not np.all(np.isfinite(t)) for t in thetas):
        return
    if th is None:
        # COBYLA keeps constraints within about its tolerance, which is for log10(theta)
        slack = 10 ** max(.005, 2 * (spec.get('tol') or 0))
        for lvl, t in enumerate(thetas):
            check(np.all(t >= low[lvl] / slack) and np.all(t <= high[lvl] * slack), 'correlation parameters of level %d are %s, bounds %s .. %s', lvl, t, low[lvl], high[lvl])
            if np.any(t < low[lvl] * 1.01) or np.any(t > high[lvl] * .99):
                log.label('theta at a bound')
    conds = []

    def R(lvl, A, B):
        return np.exp(-(((A[:, None] - B[None]) ** 2) * thetas[lvl]).sum(2))

    def reg(kind, x):
        return np.ones((len(x), 1)) if kind == 'constant' else np.hstack([np.ones((len(x), 1)), x])

    def reference(x):
        """recursive co-Kriging by generalised least squares; mean at x for all levels."""
        A = np.array([x])
        mu = None
        for lvl in range(nl):
            C = R(lvl, X[lvl], X[lvl]) + 10 * np.finfo(float).eps * np.eye(len(X[lvl]))
            conds.append(np.linalg.cond(C))
            F = reg(spec['regr'], X[lvl])
            f = reg(spec['regr'], A)
            if lvl:
                F = np.hstack([reg(spec['rho'], X[lvl]) * Y[lvl - 1][-len(X[lvl]):, None], F])
                f = np.hstack([reg(spec['rho'], A) * mu, f])
            Ci = np.linalg.inv(C)
            beta = np.linalg.solve(F.T.dot(Ci).dot(F), F.T.dot(Ci).dot(Y[lvl]))
            mu = float((f.dot(beta) + R(lvl, A, X[lvl]).dot(Ci).dot(Y[lvl] - F.dot(beta)))[0])
        return mu
    rng = np.ptp(Y[-1]) + 1e-12
    probes = list(X[-1]) + [r.uniform(0, 1, d) for _ in range(4)]
    ref = [reference(x) for x in probes]
    if max(conds) > 1e8:
        log.label('ill conditioned')
        return
    tol = (1e-12 * max(conds) + 1e-7) * rng * 10
    for i, x in enumerate(probes):
        y, s, mse = predict(sur, x)
        check(abs(y - ref[i]) <= tol, 'co-Kriging predicts %r at %s, the recursive formula gives %r (theta %s)', y, x, ref[i], thetas)
        if i < len(X[-1]):
            check(abs(y - Y[-1][i]) <= tol, 'co-Kriging predicts %r at training point %s, output there %r', y, x, Y[-1][i])
        if s is not None:
            check(s >= 0, 'error estimate %r', s)
            if mse is not None:
                check(mse >= -1e-6 * rng ** 2, 'mean square error %r at %s', mse, x)
            if i < len(X[-1]):
                check(s <= 1e-2 * rng, 'error estimate %r at training point %s', s, x)
    if spec['permute']:
        perm = r.permutation(spec['top'])
        X2, Y2 = [], []
        for a, b in zip(X, Y):
            k = len(a) - spec['top']
            X2.append(np.vstack([a[:k], a[k:][perm]]))
            Y2.append(np.concatenate([b[:k], b[k:][perm]]))
        other = build()
        train(other, X2, Y2)
        if all(np.allclose(a, np.ravel(b), rtol=1e-6) for a, b in zip(thetas, model(other).theta)):
            for i, x in enumerate(probes):
                check(abs(predict(other, x)[0] - ref[i]) <= tol * 10, 'the order of the training points changes the prediction at %s', x)
            log.label('permuted')
    log.nontrivial()
    log.label('%d levels' % nl, 'theta ' + str(spec['theta']))


FACETS = [
    Facet('kriging', krigings, run_kriging, quick=500, thorough=8000, rule='predictions and gradients compared with simple Kriging'),
    Facet('neighbours', neighbours, run_neighbour, quick=1000, thorough=8000, rule='at least one gradient compared with differences'),
    Facet('response-surface', surfaces, run_surface, quick=400, thorough=6000, rule='predictions and gradients compared'),
    Facet('co-kriging', cokrigings, run_cokriging, quick=500, thorough=8000, rule='predictions compared with the recursive formula'),
]
