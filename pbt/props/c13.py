"""C13: DOE drivers generate the designs they promise."""
import random

import numpy as np
from hypothesis import strategies as st

from pbt.core import Facet, check

ASSUMPTIONS = ['every sampled variable has finite bounds', 'a seed is an integer; designs without a seed are only '
               'required to have the promised structure']

KINDS = ['full', 'lhc', 'lhc', 'olhc', 'uniform']


@st.composite
def desvars(draw, maxdims):
    out = []
    dims = 0
    for i in range(draw(st.integers(1, 3))):
        room = maxdims - dims
        if room <= 0:
            break
        shape = draw(st.sampled_from([0, 0, [1], [2], [3], [2, 2], [4]]))
        size = 1 if shape == 0 else int(np.prod(shape))
        idx = None
        if shape != 0 and draw(st.integers(0, 2)) == 0:
            idx = draw(st.lists(st.integers(0, size - 1), min_size=1, max_size=size, unique=True))
        n = len(idx) if idx else size
        if n > room:
            shape, size, idx, n = 0, 1, None, 1
        dims += n
        per = draw(st.booleans()) and shape != 0
        k = n if per else 1
        lo = [draw(st.integers(-12, 12)) / 2. for _ in range(k)]
        wid = [draw(st.sampled_from([0.25, 1., 1., 3., 10., 100.])) for _ in range(k)]
        if draw(st.integers(0, 11)) == 0:
            wid[0] = 0.0
        sc = [1.0]
        ad = [0.0]
        if draw(st.integers(0, 2)) == 0:
            m = n if draw(st.booleans()) and shape != 0 else 1
            sc = [draw(st.sampled_from([2., -1., 0.25, -4., 10.])) for _ in range(m)]
            m = n if draw(st.booleans()) and shape != 0 else 1
            ad = [draw(st.sampled_from([0., 1., -3., 7.5])) for _ in range(m)]
        out.append(dict(shape=shape, idx=idx, lo=lo, wid=wid, sc=sc, ad=ad, per=per,
                        where=draw(st.sampled_from(['top', 'prom', 'sub']))))
    return out


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(KINDS))
    dvs = draw(desvars(4 if kind == 'full' else 8))
    dims = sum(_n(d) for d in dvs)
    if kind == 'full':
        top = {1: 12, 2: 6, 3: 4, 4: 3}[dims]
        num = draw(st.integers(1, top))
    else:
        num = draw(st.one_of(st.integers(1, 6), st.integers(1, 30)))
    return dict(kind=kind, dvs=dvs, num=num, seed=draw(st.sampled_from([None, 0, 1, 7, 12345])),
                noise=draw(st.integers(0, 99)), runs=draw(st.sampled_from([1, 1, 2])),
                pop=draw(st.integers(1, 12)), gen=draw(st.integers(1, 12)), norm=draw(st.sampled_from([1, 2])))


def _n(d):
    if d['idx']:
        return len(d['idx'])
    return 1 if d['shape'] == 0 else int(np.prod(d['shape']))


def build(spec):
    from openmdao.api import (Problem, Group, Component, IndepVarComp, UniformDriver, FullFactorialDriver,
                              LatinHypercubeDriver)
    from openmdao.drivers.latinhypercube_driver import OptimizedLatinHypercubeDriver
    seen = []

    class Look(Component):
        def __init__(self):
            super(Look, self).__init__()
            for i, d in enumerate(spec['dvs']):
                self.add_param('a%d' % i, init(d))
            self.add_output('f', 0.0)

        def solve_nonlinear(self, params, unknowns, resids):
            seen.append([np.array(params['a%d' % i], dtype=float).ravel() for i in range(len(spec['dvs']))])
            unknowns['f'] = float(len(seen))

    p = Problem(root=Group())
    p.root.add('look', Look())
    names = []
    for i, d in enumerate(spec['dvs']):
        ivc = IndepVarComp('x%d' % i, init(d))
        if d['where'] == 'top':
            p.root.add('p%d' % i, ivc)
            names.append('p%d.x%d' % (i, i))
        elif d['where'] == 'prom':
            p.root.add('p%d' % i, ivc, promotes=['*'])
            names.append('x%d' % i)
        else:
            g = p.root.add('g%d' % i, Group())
            g.add('q', ivc, promotes=['*'])
            names.append('g%d.x%d' % (i, i))
        p.root.connect(names[-1], 'look.a%d' % i)
    k, n = spec['kind'], spec['num']
    if k == 'full':
        p.driver = FullFactorialDriver(num_levels=n)
    elif k == 'uniform':
        p.driver = UniformDriver(num_samples=n, seed=spec['seed'])
    elif k == 'lhc':
        p.driver = LatinHypercubeDriver(num_samples=n, seed=spec['seed'])
    else:
        p.driver = OptimizedLatinHypercubeDriver(num_samples=n, seed=spec['seed'], population=spec['pop'],
                                                 generations=spec['gen'], norm_method=spec['norm'])

    def vec(v, per):
        return np.array(v) if per else v[0]

    for nm, d in zip(names, spec['dvs']):
        lo, hi = bounds(d)
        p.driver.add_desvar(nm, lower=vec(lo, d['per']), upper=vec(hi, d['per']), indices=d['idx'],
                            scaler=vec(d['sc'], len(d['sc']) > 1), adder=vec(d['ad'], len(d['ad']) > 1))
    p.driver.add_objective('look.f')
    p.setup(check=False)
    return p, seen


def init(d):
    if d['shape'] == 0:
        return 0.5
    return (np.arange(int(np.prod(d['shape']))) + 500.5).reshape(d['shape'])


def bounds(d):
    n = _n(d)
    lo = d['lo'] * (n if len(d['lo']) == 1 else 1)
    wid = d['wid'] * (n if len(d['wid']) == 1 else 1)
    return lo, [a + b for a, b in zip(lo, wid)]


def designs(spec, again):
    """The designs of each run of one problem: arrays of shape (cases, dims)."""
    p, seen = build(spec)
    out = []
    for r in range(spec['runs']):
        random.seed(spec['noise'] + again * 1000 + r)
        np.random.seed(spec['noise'] + again * 1000 + r)
        del seen[:]
        p.run()
        rows = []
        for vals in seen:
            row = []
            for d, v in zip(spec['dvs'], vals):
                if d['idx']:
                    keep = init(d).ravel()
                    for j in range(v.size):
                        check(j in d['idx'] or v[j] == keep[j],
                              'entry %d of a design variable with indices %s changed to %s', j, d['idx'], v[j])
                    v = v[d['idx']]
                row += v.tolist()
            rows.append(row)
        out.append(np.array(rows).reshape(len(rows), -1))
    p.cleanup()
    return out


def run(spec, log):
    dims = sum(_n(d) for d in spec['dvs'])
    kind, num = spec['kind'], spec['num']
    lo = np.concatenate([bounds(d)[0] for d in spec['dvs']])
    hi = np.concatenate([bounds(d)[1] for d in spec['dvs']])
    eps = 1e-9 * (np.abs(lo) + np.abs(hi) + 1)
    first = designs(spec, 0)
    want = num ** dims if kind == 'full' else num
    for D in first:
        check(D.shape == (want, dims), '%d cases of %d values, expected %d of %d', D.shape[0], D.shape[1], want, dims)
        for j in range(dims):
            check(np.all(D[:, j] >= lo[j] - eps[j]) and np.all(D[:, j] <= hi[j] + eps[j]),
                  'dimension %d leaves its bounds [%s, %s]: %s', j, lo[j], hi[j], D[:, j].tolist())
        if kind == 'full':
            full(D, lo, hi, eps, num)
        elif kind in ('lhc', 'olhc'):
            for j in range(dims):
                w = (hi[j] - lo[j]) / num
                col = np.sort(D[:, j])
                for i in range(num):
                    check(lo[j] + i * w - eps[j] <= col[i] <= lo[j] + (i + 1) * w + eps[j],
                          'dimension %d of the Latin hypercube does not hit stratum %d of %d in [%s, %s] exactly '
                          'once: sorted values %s', j, i, num, lo[j], hi[j], col.tolist())
        if kind != 'full':
            independent(D, lo, hi, kind)
    if kind == 'olhc' and spec['seed'] is not None and num > 1 and np.all(hi > lo):
        start = designs(dict(spec, kind='lhc', runs=1), 0)[0]
        a, b = [np.floor((D - lo) / (hi - lo) * num) for D in (start, first[0])]
        qs = [1, 2, 5, 10, 20, 50, 100]
        before, after = [[phi(X, q, spec['norm']) for q in qs] for X in (a, b)]
        check(any(y <= x * (1 + 1e-9) for x, y in zip(before, after)),
              'the optimized design is worse than the one that it starts from: Morris-Mitchell criterion %s, '
              'of the plain design with this seed %s (for q = %s)', after, before, qs)
        log.label('improved' if after != before else 'not improved')
    if kind != 'full' and spec['seed'] is not None or kind == 'full':
        for other in first[1:] + designs(spec, 1):
            check(np.array_equal(other, first[0]),
                  'the same seed gave different designs: %s and %s', first[0].tolist(), other.tolist())
        log.label('seeded')
    log.label(kind, 'dims%d' % dims, 'n1' if num == 1 else 'n2+')
    if any(d['idx'] for d in spec['dvs']):
        log.label('indices')
    if any(d['sc'] != [1.0] for d in spec['dvs']):
        log.label('scaled')
    if any(w == 0 for d in spec['dvs'] for w in d['wid']):
        log.label('fixed')
    log.nontrivial(want > 1 and dims > 1)


def full(D, lo, hi, eps, num):
    dims = D.shape[1]
    idx = np.zeros(D.shape, dtype=int)
    for j in range(dims):
        if num == 1 or hi[j] == lo[j]:
            continue        # every level is the same value
        step = (hi[j] - lo[j]) / (num - 1)
        idx[:, j] = np.round((D[:, j] - lo[j]) / step)
        err = np.abs(lo[j] + idx[:, j] * step - D[:, j])
        check(np.all(err <= eps[j]), 'dimension %d takes a value that is not one of %d even levels of [%s, %s]: %s',
              j, num, lo[j], hi[j], sorted(set(D[:, j].tolist())))
    rows = [tuple(r) for r in idx.tolist()]
    mult = num ** int(np.sum(hi == lo)) if num > 1 else 1
    counts = {}
    for r in rows:
        counts[r] = counts.get(r, 0) + 1
    for r, c in counts.items():
        check(c == mult, 'the combination of levels %s is run %d times, expected %d', r, c, mult)


def phi(X, q, norm):
    """Morris-Mitchell criterion: smaller when the closest points are further apart."""
    d = [np.linalg.norm(X[i] - X[j], ord=norm) for i in range(len(X)) for j in range(i)]
    return float(np.sum(np.array(d) ** -float(q)) ** (1.0 / q))


def independent(D, lo, hi, kind):
    """No two dimensions may be copies of one another (up to their bounds), and no two cases of the whole design."""
    dims = [j for j in range(D.shape[1]) if hi[j] > lo[j]]
    U = (D[:, dims] - lo[dims]) / (hi - lo)[dims]
    for a in range(len(dims)):
        for b in range(a):
            for V, how in ((U[:, b], 'equal to'), (1 - U[:, b], 'mirrored from')):
                check(not np.allclose(U[:, a], V, rtol=0, atol=1e-7),
                      'dimension %d is not sampled independently: it is %s dimension %d (%s)',
                      dims[a], how, dims[b], U[:, a].tolist())
    if D.shape[0] >= 14 and kind == 'lhc':
        S = np.minimum((U * D.shape[0]).astype(int), D.shape[0] - 1)
        for a in range(len(dims)):
            for b in range(a):
                check(not np.array_equal(S[:, a], S[:, b]),
                      'dimensions %d and %d go through their strata in the same order', dims[a], dims[b])
    if dims:
        for a in range(D.shape[0]):
            for b in range(a):
                check(not np.allclose(U[a], U[b], rtol=0, atol=1e-12), 'cases %d and %d are the same: %s', b, a,
                      D[a].tolist())


FACETS = [Facet('design', cases, run, 900, rule='more than one case and more than one dimension', cpu_limit=20)]
