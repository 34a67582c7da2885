"""C10: ScipyOptimizer ends at a feasible optimum, in user units, with the model evaluated there."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Facet, check, check_close
from pbt.models import nsize

ASSUMPTIONS = ['strictly convex objectives (condition number up to ~50), affine or convex quadratic constraints with '
               'a strictly feasible point when there are no equalities', 'scalings between 1/8 and 8',
               'when plain SciPy called with the same scaled NumPy functions misses the optimum too, the case says '
               'nothing about the wrapper and is labelled']

UNCON = ['Nelder-Mead', 'Powell', 'CG', 'BFGS', 'Newton-CG']
SC = [1.0, 1.0, 0.25, 4.0, 8.0, 0.125, -1.0, -2.0]


def value(lo=-3, hi=3):
    return st.integers(lo * 8, hi * 8).map(lambda k: k / 8.0)


@st.composite
def scaling(draw, n, array=True, negative=True):
    out = {}
    pool = SC if negative else [s for s in SC if s > 0]
    for key, strat in (('scaler', st.sampled_from(pool)), ('adder', st.sampled_from([0.0, 0.0, 1.5, -10.0]))):
        kind = draw(st.integers(0, 4 if array and n > 1 else 3))
        out[key] = None if kind < 2 else draw(strat) if kind < 4 else \
            draw(st.lists(strat, min_size=n, max_size=n))
    return out


@st.composite
def cases(draw):
    opt = draw(st.sampled_from(['SLSQP'] * 6 + ['COBYLA', 'L-BFGS-B', 'TNC'] + UNCON))
    mode = draw(st.sampled_from(['auto', 'fwd', 'rev', 'fd']))
    if opt == 'Newton-CG' and mode == 'fd':
        mode = 'auto'       # it differences the gradient: noise with a finite-difference gradient
    dvs = []
    for i in range(draw(st.integers(1, 3))):
        s = draw(st.sampled_from([0, [1], [2], [3], [2, 2]]))
        n = nsize(s)
        idx = None
        if n > 1 and draw(st.integers(0, 2)) == 0:
            idx = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True))
        m = len(idx) if idx is not None else n
        d = dict(s=s, idx=idx, lower=None, upper=None, lo_array=draw(st.booleans()),
                 start=draw(st.lists(value(), min_size=n, max_size=n)),
                 # forward gradients with array design variable scalers: known finding C09-fwd-scaler
                 **draw(scaling(m, array=mode in ('rev', 'fd'))))
        dvs.append(d)
    n = sum(len(d['idx']) if d['idx'] is not None else nsize(d['s']) for d in dvs)
    xf = draw(st.lists(value(), min_size=n, max_size=n))
    if opt in ('SLSQP', 'L-BFGS-B', 'TNC'):
        k = 0
        for d in dvs:
            m = len(d['idx']) if d['idx'] is not None else nsize(d['s'])
            for key, sgn in (('lower', -1), ('upper', 1)):
                if draw(st.booleans()):
                    gaps = draw(st.lists(value(0, 2), min_size=m, max_size=m))
                    v = [x + sgn * (g + 0.125) for x, g in zip(xf[k:k + m], gaps)]
                    if d['lo_array'] and draw(st.integers(0, 3)) == 0:
                        v[0] = sgn * np.inf
                    d[key] = v if d['lo_array'] else (min(v) if sgn < 0 else max(v))
            k += m
    cons = []
    neq = 0
    if opt in ('SLSQP', 'COBYLA'):
        for i in range(draw(st.integers(0, 3))):
            m = draw(st.integers(1, 3))
            pick = None
            if m > 1 and draw(st.integers(0, 3)) == 0:
                pick = draw(st.lists(st.integers(0, m - 1), min_size=1, max_size=m, unique=True))
            nm = len(pick) if pick is not None else m
            kind = draw(st.sampled_from(['lower', 'upper', 'both', 'equals', 'quad']))
            if kind == 'equals' and (opt == 'COBYLA' or neq + nm > n - 1):
                kind = 'both'
            if kind == 'equals':
                neq += nm
            cons.append(dict(m=m, idx=pick, kind=kind, array=draw(st.booleans()), linear=draw(st.booleans()),
                             gap=draw(st.lists(st.one_of(value(0, 2), value(0, 2), value(0, 2), st.just(100)), min_size=2 * m, max_size=2 * m)),
                             **draw(scaling(nm))))
    return dict(opt=opt, mode=mode, dvs=dvs, xf=xf, cons=cons, seed=draw(st.integers(0, 999)),
                obj=draw(scaling(1, array=False, negative=False)), maximise=draw(st.integers(0, 3)) == 0,
                objn=draw(st.integers(0, 2)), first=draw(st.booleans()), again=draw(st.integers(0, 3)) == 0,
                nest=draw(st.booleans()))


def arr(v, n, default):
    v = default if v is None else v
    return np.full(n, v, dtype=float) if np.ndim(v) == 0 else np.array(v, dtype=float)


class Ref(object):
    """The optimisation problem in NumPy, in model units, over the selected entries z."""

    def __init__(self, spec):
        self.spec = spec
        rng = np.random.RandomState(spec['seed'])
        self.n = n = len(spec['xf'])
        self.xf = np.array(spec['xf'])
        B = rng.randint(-4, 5, (n, n)) / 4.0
        self.Q = B.T.dot(B) / max(1.0, np.linalg.norm(B, 2) ** 2) * 4 + 0.25 * np.eye(n)
        self.c = rng.randint(-24, 25, n) / 8.0
        self.A, self.q = [], []
        for con in spec['cons']:
            while True:
                A = rng.randint(-8, 9, (con['m'], n)) / 8.0
                if all(np.any(r != 0) for r in A):
                    break
            self.A.append(A)
            self.q.append(0.25 if con['kind'] == 'quad' else 0.0)
        self.sign = -1.0 if spec['maximise'] else 1.0

    def f(self, z):
        d = z - self.c
        return self.sign * 0.5 * d.dot(self.Q).dot(d) + 1.0

    def df(self, z):
        return self.sign * self.Q.dot(z - self.c)

    def g(self, k, z):
        return self.A[k].dot(z) + self.q[k] * z.dot(z)

    def dg(self, k, z):
        return self.A[k] + 2 * self.q[k] * z[None, :]

    def limits(self, k):
        """lower, upper, equals of the selected entries of constraint k (arrays or None), and the selection."""
        con = self.spec['cons'][k]
        sel = con['idx'] if con['idx'] is not None else list(range(con['m']))
        g0 = self.g(k, self.xf)[sel]
        gap = np.array(con['gap'])
        lo = g0 - gap[:len(sel)] - 0.125
        hi = g0 + gap[con['m']:con['m'] + len(sel)] + 0.125
        if not con['array']:
            lo, hi = g0 - gap[:len(sel)] % 100 - 0.125, g0 + gap[con['m']:con['m'] + len(sel)] % 100 + 0.125
            lo, hi = np.full(len(sel), lo.min()), np.full(len(sel), hi.max())
        else:       # an entry without a bound
            lo[lo < g0 - 50] = -np.inf
            hi[hi > g0 + 50] = np.inf
        kind = con['kind']
        if kind == 'equals':
            return None, None, g0, sel
        return (lo if kind in ('lower', 'both') else None), (hi if kind in ('upper', 'both', 'quad') else None), \
            None, sel

    def box(self):
        lo, hi = [], []
        for d in self.spec['dvs']:
            m = len(d['idx']) if d['idx'] is not None else nsize(d['s'])
            lo.append(arr(d['lower'], m, -np.inf))
            hi.append(arr(d['upper'], m, np.inf))
        return np.concatenate(lo), np.concatenate(hi)

    def infeasible(self, z):
        """Largest violation of a bound or constraint."""
        lo, hi = self.box()
        bad = [0.0, np.max(lo - z), np.max(z - hi)]
        for k in range(len(self.A)):
            l, u, e, sel = self.limits(k)
            g = self.g(k, z)[sel]
            if l is not None:
                bad.append(np.max(l - g))
            if u is not None:
                bad.append(np.max(g - u))
            if e is not None:
                bad.append(np.max(np.abs(g - e)))
        return max(bad)

    def direct(self, opt, z0, scaled, tol):
        """Plain SciPy on the same problem; with `scaled` in the driver's coordinates."""
        from scipy.optimize import minimize
        spec = self.spec
        s, a = [], []
        for d in spec['dvs']:
            m = len(d['idx']) if d['idx'] is not None else nsize(d['s'])
            s.append(arr(d['scaler'], m, 1.0))
            a.append(arr(d['adder'], m, 0.0))
        s, a = (np.concatenate(s), np.concatenate(a)) if scaled else (np.ones(self.n), np.zeros(self.n))
        fs = (spec['obj']['scaler'] or 1.0) * self.sign if scaled else self.sign
        fa = (spec['obj']['adder'] or 0.0) if scaled else 0.0

        def mod(x):
            return x / s - a
        lo, hi = self.box()
        b = [tuple(sorted(((l + ai) * si, (h + ai) * si))) for l, h, ai, si in zip(lo, hi, a, s)]
        cons = []
        for k, con in enumerate(spec['cons']):
            l, u, e, sel = self.limits(k)
            cs = np.abs(arr(con['scaler'], len(sel), 1.0)) if scaled else np.ones(len(sel))
            for lim, sgn, t in ((e, -1, 'eq'), (l, 1, 'ineq'), (u, -1, 'ineq')):
                if lim is None:
                    continue
                for j in range(len(sel)):
                    if np.isinf(lim[j]):
                        continue
                    cons.append(dict(type=t, fun=lambda x, k=k, j=j, r=sel[j], lim=lim, sgn=sgn, cs=cs:
                                     sgn * cs[j] * (self.g(k, mod(x))[r] - lim[j])))
                    if opt == 'SLSQP':
                        cons[-1]['jac'] = lambda x, k=k, j=j, r=sel[j], sgn=sgn, cs=cs: \
                            sgn * cs[j] * self.dg(k, mod(x))[r] / s
        res = minimize(lambda x: fs * (self.f(mod(x)) + fa), (z0 + a) * s, method=opt,
                       jac=(lambda x: fs * self.df(mod(x)) / s) if opt in
                       ('CG', 'BFGS', 'Newton-CG', 'L-BFGS-B', 'TNC', 'SLSQP') else None,
                       bounds=b if opt in ('L-BFGS-B', 'TNC', 'SLSQP') else None, constraints=cons, tol=tol,
                       options=dict(maxiter=1000))
        return mod(res.x)


def run(spec, log):
    from openmdao.api import Problem, Group, Component, IndepVarComp, ScipyOptimizer
    ref = Ref(spec)
    dvs = spec['dvs']
    full0 = [np.array(d['start'], dtype=float) for d in dvs]
    sels = [d['idx'] if d['idx'] is not None else list(range(nsize(d['s']))) for d in dvs]
    cuts = np.cumsum([0] + [len(s) for s in sels])

    def shaped(d, v):
        return float(v[0]) if d['s'] == 0 else np.array(v, dtype=float).reshape(d['s'])

    def z_of(params):
        return np.concatenate([np.ravel(params['x%d' % i])[s] for i, s in enumerate(sels)])

    class Base(Component):
        def inputs(self):
            for i, d in enumerate(dvs):
                self.add_param('x%d' % i, shaped(d, np.zeros(nsize(d['s']))))

        def partials(self, J):
            """J (rows, z) spread over the whole variables."""
            out = []
            for i, d in enumerate(dvs):
                full = np.zeros((len(J), nsize(d['s'])))
                full[:, sels[i]] = J[:, cuts[i]:cuts[i + 1]]
                out.append(full)
            return out

    objn = spec['objn']     # the objective is entry `objn - 1` of an array, or a scalar

    class Obj(Base):
        def __init__(self):
            super(Obj, self).__init__()
            self.inputs()
            self.add_output('f', 0.0 if objn == 0 else np.zeros(objn))

        def solve_nonlinear(self, params, unknowns, resids):
            f = ref.f(z_of(params))
            unknowns['f'] = f if objn == 0 else np.array([0.5 * f] * (objn - 1) + [f])

        def linearize(self, params, unknowns, resids):
            r = ref.df(z_of(params))
            rows = np.array([r] if objn == 0 else [0.5 * r] * (objn - 1) + [r])
            return {('f', 'x%d' % i): b for i, b in enumerate(self.partials(rows))}

    class Con(Base):
        def __init__(self, k):
            super(Con, self).__init__()
            self.k = k
            self.inputs()
            self.add_output('c%d' % k, np.zeros(spec['cons'][k]['m']))

        def solve_nonlinear(self, params, unknowns, resids):
            unknowns['c%d' % self.k] = ref.g(self.k, z_of(params))

        def linearize(self, params, unknowns, resids):
            return {('c%d' % self.k, 'x%d' % i): b
                    for i, b in enumerate(self.partials(ref.dg(self.k, z_of(params))))}

    prob = Problem(root=Group())
    root = prob.root
    for i, d in enumerate(dvs):
        root.add('p%d' % i, IndepVarComp('x%d' % i, shaped(d, full0[i])), promotes=['*'])
    inner = root.add('g', Group(), promotes=['*']) if spec['nest'] else root
    parts = [('con%d' % k, Con(k)) for k in range(len(spec['cons']))]
    parts.insert(0 if spec['first'] else len(parts), ('obj', Obj()))
    for nm, c in parts:
        inner.add(nm, c, promotes=['*'])
    if spec['mode'] == 'fd':
        root.deriv_options['type'] = 'fd'
        root.deriv_options['form'] = 'central'
    elif spec['mode'] != 'auto':
        root.ln_solver.options['mode'] = spec['mode']
    drv = prob.driver = ScipyOptimizer()
    opt = spec['opt']
    tol = 1e-9
    drv.options['optimizer'] = opt
    drv.options['tol'] = tol
    drv.options['maxiter'] = 1000
    drv.options['disp'] = False

    def kw(d, n, **extra):
        out = {}
        for key in ('scaler', 'adder'):
            if d[key] is not None:
                out[key] = np.array(d[key]) if np.ndim(d[key]) else d[key]
        for key, v in extra.items():
            if v is not None:
                out[key] = np.array(v) if np.ndim(v) else v
        if d.get('idx') is not None:
            out['indices'] = d['idx']
        return out

    for i, d in enumerate(dvs):
        drv.add_desvar('x%d' % i, **kw(d, len(sels[i]), lower=d['lower'], upper=d['upper']))
    okw = kw(spec['obj'], 1)
    if ref.sign < 0:
        okw['scaler'] = -okw.get('scaler', 1.0)
    if objn == 2:
        okw['indices'] = [1]
    drv.add_objective('f', **okw)
    for k, con in enumerate(spec['cons']):
        l, u, e, sel = ref.limits(k)
        if not con['array'] and e is None:
            l = l if l is None else float(l[0])
            u = u if u is None else float(u[0])
        drv.add_constraint('c%d' % k, linear=con['linear'], **kw(con, len(sel), lower=l, upper=u, equals=e))
    prob.setup(check=False)

    def start():
        for i, d in enumerate(dvs):
            prob['x%d' % i] = shaped(d, full0[i])

    z0 = np.concatenate([f[s] for f, s in zip(full0, sels)])
    # plain SciPy, unscaled and scaled; the reference is the better of several
    zs = ref.direct('SLSQP', np.array(spec['xf']), False, 1e-13)
    for cand in (ref.direct('SLSQP', z0, False, 1e-13), np.array(spec['xf'])):
        if ref.infeasible(cand) < 1e-7 and (ref.infeasible(zs) > 1e-7 or ref.sign * ref.f(cand) < ref.sign * ref.f(zs)):
            zs = cand
    fbest = ref.sign * ref.f(zs)
    loose = opt in ('Nelder-Mead', 'COBYLA', 'Powell') or spec['mode'] == 'fd'
    ftol, ctol = (2e-4, 2e-4) if loose else (1e-5, 1e-5)

    def good(z):
        return ref.infeasible(z) <= ctol and ref.sign * ref.f(z) <= fbest + ftol * max(1.0, abs(fbest - ref.sign))

    for _ in range(2 if spec['again'] else 1):
        start()
        prob.run()
        got = [np.ravel(prob['x%d' % i]).astype(float) for i in range(len(dvs))]
        z = np.concatenate([g[s] for g, s in zip(got, sels)])
        for i, d in enumerate(dvs):
            keep = [j for j in range(nsize(d['s'])) if j not in sels[i]]
            check(np.all(got[i][keep] == full0[i][keep]), 'entries of x%d that are not design variables changed', i)
        # the model is evaluated at the reported optimum
        k = 0
        for i, d in enumerate(dvs):
            m = len(sels[i])
            want = drv.result.x[k:k + m] / arr(d['scaler'], m, 1.0) - arr(d['adder'], m, 0.0)
            check_close(got[i][sels[i]], want, 'x%d in the model after the run vs the reported optimum' % i, 1e-12, 1e-10)
            k += m
        check_close(np.ravel(prob['f'])[-1], ref.f(z), 'objective left in the model', 1e-10, 1e-10)
        for k in range(len(spec['cons'])):
            check_close(prob['c%d' % k], ref.g(k, z), 'constraint left in the model', 1e-10, 1e-10)
        lo, hi = ref.box()
        check(np.all(z >= lo - 1e-8) and np.all(z <= hi + 1e-8), 'design variables %s outside the bounds %s, %s', z, lo, hi)
        if not good(z):
            tries = [ref.direct(opt, z0 + dz, True, tol) for dz in (0.0, 1e-9, -1e-8, 1e-6)]
            zd = tries[0]
            if all(good(t) for t in tries):
                check(False, '%s stopped at %s: f=%s, violation %s; plain SciPy reaches f=%s (optimum %s)', opt, z,
                      ref.f(z), ref.infeasible(z), ref.f(zd), fbest * ref.sign)
            log.label('plain SciPy misses it too')
        else:
            log.label('optimum')
    log.label(opt)
    log.label('mode ' + spec['mode'])
    lo, hi = ref.box()
    act = np.any(np.abs(zs - lo) < 1e-5) or np.any(np.abs(zs - hi) < 1e-5)
    for k in range(len(spec['cons'])):
        l, u, e, sel = ref.limits(k)
        g = ref.g(k, zs)[sel]
        act = act or e is not None or (l is not None and np.any(np.abs(g - l) < 1e-5)) \
            or (u is not None and np.any(np.abs(g - u) < 1e-5))
    if act:
        log.label('active constraint or bound')
    log.nontrivial(bool(act) or opt in UNCON)


FACETS = [
    Facet('optimize', cases, run, 800, rule='a bound or constraint is active at the optimum, or an unconstrained method'),
]
