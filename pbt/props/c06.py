"""C06 nonlinear solvers stop only at a converged solution or report failure."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Facet, check

ASSUMPTIONS = ['the coupled systems are contractions with a known bound, so they have one solution and the distance '
               'to it is bounded by the residual', 'NLGaussSeidel with maxiter=1 is documented as a single pass '
               'without convergence test, so no failure report is demanded of it', 'serial execution']

NM = ['d', 'a', 'c1', 'b', 'c', 'e']
GN = ['g', 'g1', 'ga', 'h', 'k', 'm', 'n', 'o']


# ------------------------------------------------------------------ model
def solver_opts(draw, kind, nested):
    o = dict(kind=kind)
    if kind == 'runonce':
        o['fd'] = draw(st.integers(0, 2)) == 0
        return o
    o['crit'] = draw(st.sampled_from(['atol', 'atol', 'rtol', 'utol']))
    o['tol'] = draw(st.integers(5, 9))
    big = 60 if nested else 100
    o['maxiter'] = draw(st.sampled_from([big, big, big, big, 1, 2, 3, 5, 8]))
    o['err'] = draw(st.booleans())
    if kind == 'gs':
        o['aitken'] = draw(st.integers(0, 2)) == 0
        o['amin'] = draw(st.sampled_from([0.25, 0.1, 0.9]))
        o['amax'] = draw(st.sampled_from([2.0, 1.5, 1.0]))
    else:
        o['ln'] = draw(st.sampled_from(['direct', 'gmres', 'own_direct', 'own_gmres', 'lgs']))
        o['subs'] = draw(st.sampled_from([True, True, False]))
        o['fdtype'] = draw(st.integers(0, 3)) == 0
    return o


@st.composite
def systems(draw):
    n = draw(st.integers(2, 5))
    size = draw(st.integers(1, 2))
    top = draw(st.sampled_from(['gs', 'gs', 'newton', 'newton']))
    linear = draw(st.booleans())

    def tree(items, depth, kind, under_newton):
        kids = []
        if depth == 0 and len(items) >= 3 and draw(st.booleans()):
            cut = draw(st.integers(1, len(items) - 1))
            parts = [items[:cut], items[cut:]]
            if draw(st.booleans()):
                parts.reverse()
            for part in parts:
                if draw(st.integers(0, 2)):
                    k = draw(st.sampled_from(['gs', 'newton', 'runonce']))
                    kids.append(tree(part, depth + 1, k, under_newton or kind == 'newton'))
                else:
                    kids.extend(part)
        else:
            kids = list(items)
        o = solver_opts(draw, kind, depth > 0)
        kids_fd = o.get('fd')
        return dict(kids=kids, solver=o,
                    free=kind == 'newton' or (kind == 'runonce' and under_newton and not kids_fd))
    t = tree(list(draw(st.permutations(range(n)))), 0, top, False)
    fault = None
    if draw(st.integers(0, 4)) == 0:
        fault = dict(comp=draw(st.integers(0, n - 1)), call=draw(st.integers(1, 12)),
                     kind=draw(st.sampled_from(['nan', 'nan', 'analysis', 'value'])))
    return dict(n=n, size=size, tree=t, linear=linear, q=draw(st.sampled_from([0.1, 0.3, 0.5, 0.5])),
                W=[[draw(st.integers(-3, 3)) if i != j else 0 for j in range(n)] for i in range(n)],
                b=[draw(st.integers(-9, 9)) for _ in range(n)],
                kinds=[draw(st.sampled_from(['exp', 'exp', 'imp', 'free'])) for _ in range(n)],
                K=[draw(st.sampled_from([1.0, 2.0, -3.0])) for _ in range(n)],
                wrap=draw(st.booleans()), fault=fault,
                runs=draw(st.lists(st.tuples(st.integers(-5, 5),
                                             st.one_of(st.none(), st.integers(0, 10 ** 6))).map(list),
                                   min_size=1, max_size=4)))


def comp_class():
    from openmdao.api import Component, AnalysisError

    class Cell(Component):
        """z = b + x + W tanh(z_others)  (implicit kinds: 0 = K*(z + c sin(z) - that))"""

        def __init__(self, case, i):
            super(Cell, self).__init__()
            self.case, self.i = case, i
            self.kind = case.kinds[i]
            size = case.size
            self.add_param('x', np.zeros(size))
            self.src = [j for j in range(case.n) if np.any(case.W[i][j])]
            for j in self.src:
                self.add_param('z%d' % j, np.zeros(size))
            if self.kind == 'exp':
                self.add_output('z', np.zeros(size))
            else:
                self.add_state('z', np.zeros(size))
            self.calls = 0

        def g(self, params):
            zs = dict((j, params['z%d' % j]) for j in self.src)
            return self.case.g(self.i, params['x'], zs)

        def fail(self):
            self.calls += 1
            f = self.case.fault
            if f and self.case.armed and f['comp'] == self.i and self.calls == f['call']:
                self.case.fired = True
                if f['kind'] == 'analysis':
                    raise AnalysisError('planted')
                if f['kind'] == 'value':
                    raise ValueError('planted')
                return True
            return False

        def solve_nonlinear(self, params, unknowns, resids):
            bad = self.fail()
            if self.kind == 'exp':
                unknowns['z'] = self.g(params)
            elif self.kind == 'imp':
                rhs = self.g(params)
                z = np.array(rhs)
                for _ in range(100):
                    z = z - (z + self.case.c * np.sin(z) - rhs) / (1 + self.case.c * np.cos(z))
                unknowns['z'] = z
            if bad:
                unknowns['z'] = np.nan * np.ones(self.case.size)

        def apply_nonlinear(self, params, unknowns, resids):
            if self.kind == 'exp':
                return super(Cell, self).apply_nonlinear(params, unknowns, resids)
            z = unknowns['z']
            resids['z'] = self.case.K[self.i] * (z + self.case.c * np.sin(z) - self.g(params))

        def linearize(self, params, unknowns, resids):
            J = {}
            eye = np.eye(self.case.size)
            K = 1.0 if self.kind == 'exp' else -self.case.K[self.i]
            J['z', 'x'] = K * eye
            for j in self.src:
                J['z', 'z%d' % j] = K * self.case.dg(self.i, j, params['z%d' % j])
            if self.kind != 'exp':
                J['z', 'z'] = -K * np.diag(1 + self.case.c * np.cos(unknowns['z']))
            return J
    return Cell


class Case(object):
    def __init__(self, spec):
        self.spec = spec
        self.n, self.size = spec['n'], spec['size']
        n, size = self.n, self.size
        self.linear = spec['linear']
        self.c = 0.0 if self.linear else 0.3
        W = np.array(spec['W'], dtype=float)
        rows = np.abs(W).sum(axis=1)
        rows[rows == 0] = 1.0
        W = W * (spec['q'] / rows)[:, None]
        mix = np.array([[1.0]]) if size == 1 else np.array([[0.7, -0.3], [0.3, 0.7]])
        self.W = [[W[i, j] * mix for j in range(n)] for i in range(n)]
        self.b = [np.array([spec['b'][i] / 4.0, -spec['b'][i] / 3.0 + 0.5][:size]) for i in range(n)]
        self.K = spec['K']
        self.fault = spec['fault']
        self.Wnum = W
        self.armed = False
        self.fired = False
        self.kinds = list(spec['kinds'])
        self.path = {}
        self.free_ok = {}
        self.walk(spec['tree'])
        for i in range(n):
            if self.kinds[i] == 'free' and not self.free_ok[i]:
                self.kinds[i] = 'imp'

    def loops(self, mem):
        inside = np.zeros((self.n, self.n), dtype=bool)
        inside[np.ix_(mem, mem)] = True
        reach = (self.Wnum != 0) & inside
        for k in range(self.n):
            reach = reach | (reach[:, k:k + 1] & reach[k:k + 1, :])
        return np.diag(reach)

    def walk(self, node):
        for k in node['kids']:
            if isinstance(k, dict):
                self.walk(k)
            else:
                self.free_ok[k] = node['free']

    def phi(self, z):
        return z if self.linear else np.tanh(z)

    def g(self, i, x, zs):
        v = self.b[i] + x
        for j, z in zs.items():
            v = v + self.W[i][j].dot(self.phi(z))
        return v

    def dg(self, i, j, z):
        d = np.ones(self.size) if self.linear else 1 - np.tanh(z) ** 2
        return self.W[i][j] * d[None, :]

    def residual(self, x, z):
        """Unscaled (K=1) residuals of all cells."""
        r = []
        for i in range(self.n):
            zs = dict((j, z[j]) for j in range(self.n) if np.any(self.W[i][j]))
            c = 0.0 if self.kinds[i] == 'exp' else self.c
            r.append(z[i] + c * np.sin(z[i]) - self.g(i, x, zs))
        return np.array(r)

    def solution(self, x):
        z = np.zeros((self.n, self.size))
        for _ in range(3000):
            old = z.copy()
            for i in range(self.n):
                zs = dict((j, z[j]) for j in range(self.n))
                rhs = self.g(i, x, zs)
                c = 0.0 if self.kinds[i] == 'exp' else self.c
                y = z[i].copy()
                for _ in range(60):
                    y2 = y - (y + c * np.sin(y) - rhs) / (1 + c * np.cos(y))
                    done = np.max(np.abs(y2 - y)) < 1e-15
                    y = y2
                    if done:
                        break
                z[i] = y
            if np.max(np.abs(z - old)) < 1e-15:
                break
        return z

    # ------------------------------------------------------------- build
    def build(self, log):
        from openmdao.api import (Problem, Group, IndepVarComp, NLGaussSeidel, Newton, RunOnce, DirectSolver,
                                  ScipyGMRES, LinearGaussSeidel, ExecComp)
        Cell = comp_class()
        self.solvers = []

        def lin(kind):
            if kind.endswith('gmres'):
                s = ScipyGMRES()
                s.options['atol'] = 1e-13
                return s
            if kind == 'lgs':
                s = LinearGaussSeidel()
                s.options['maxiter'] = 80
                s.options['atol'] = s.options['rtol'] = 1e-12
                return s
            return DirectSolver()

        def members(node):
            out = []
            for k in node['kids']:
                out += members(k) if isinstance(k, dict) else [k]
            return out

        def make(node, path, grp):
            o = node['solver']
            at = len(self.solvers)
            for j, k in enumerate(node['kids']):
                if isinstance(k, dict):
                    sub = grp.add(GN[j], Group())
                    make(k, path + GN[j] + '.', sub)
                else:
                    self.path[k] = path + NM[k]
                    grp.add(NM[k], Cell(self, k))
            if o['kind'] == 'runonce':
                s = RunOnce()
                if o.get('fd') and not any(self.loops(members(node))) and \
                        all(self.kinds[i] == 'exp' for i in members(node)):
                    grp.deriv_options['type'] = 'fd'
                    grp.deriv_options['form'] = 'central'
                grp.ln_solver = DirectSolver()
            else:
                if o['kind'] == 'gs':
                    s = NLGaussSeidel()
                    s.options['use_aitken'] = o['aitken']
                    s.options['aitken_alpha_min'] = o['amin']
                    s.options['aitken_alpha_max'] = o['amax']
                    grp.ln_solver = DirectSolver()
                else:
                    s = Newton()
                    s.options['solve_subsystems'] = o['subs']
                    if o['ln'] == 'lgs' and any(self.kinds[i] != 'exp' for i in members(node)):
                        # linear Gauss-Seidel does not apply: the cells have no solve_linear
                        grp.ln_solver = DirectSolver()
                    elif o['ln'].startswith('own'):
                        s.ln_solver = lin(o['ln'])
                        grp.ln_solver = DirectSolver()
                    else:
                        grp.ln_solver = lin(o['ln'])
                for nm in ('atol', 'rtol', 'utol'):
                    s.options[nm] = 10.0 ** -o['tol'] if nm == o['crit'] else 1e-14
                s.options['maxiter'] = o['maxiter']
                s.options['err_on_maxiter'] = o['err']
                s.options['iprint'] = -1
                self.solvers.insert(at, (s, o, members(node), grp))
            grp.nl_solver = s
        self.prob = p = Problem(root=Group())
        tree = self.spec['tree']
        if self.spec['wrap']:
            p.root.add('p', IndepVarComp('x', np.zeros(self.size)))
            cg = p.root.add('cpl', Group())
            p.root.add('post', ExecComp('s=' + '+'.join('z%d' % i for i in range(self.n)), s=np.zeros(self.size),
                                        **dict(('z%d' % i, np.zeros(self.size)) for i in range(self.n))))
            p.root.ln_solver = DirectSolver()
            make(tree, 'cpl.', cg)
        else:
            p.root.add('p', IndepVarComp('x', np.zeros(self.size)))
            make(tree, '', p.root)
        for i in range(self.n):
            p.root.connect('p.x', self.path[i] + '.x')
            for j in range(self.n):
                if np.any(self.W[i][j]):
                    p.root.connect(self.path[j] + '.z', self.path[i] + '.z%d' % j)
            if self.spec['wrap']:
                p.root.connect(self.path[i] + '.z', 'post.z%d' % i)
        newton_above = False
        for s, o, mem, grp in self.solvers:
            # (finite differencing of a group runs its solvers at perturbed inputs)
            if o.get('fdtype') and not newton_above:
                grp.deriv_options['type'] = 'fd'
            newton_above = self.solvers[0][1]['kind'] == 'newton'
        p.setup(check=False)
        return p

    def z(self):
        return np.array([np.array(self.prob[self.path[i] + '.z'], dtype=float) for i in range(self.n)])


def run_solver(spec, log):
    from openmdao.api import AnalysisError
    case = Case(spec)
    p = case.build(log)
    top = case.solvers[0]
    q = max(0.05, spec['q']) * 1.0
    lip = (q if case.linear else q / 0.7)
    Kmin = min(abs(k) for k in case.K + [1.0])
    events = []
    multi = [len(case.solvers) > 1]

    def wrap(s, o, mem, grp):
        orig = s.solve

        def solve(params, unknowns, resids, system, metadata=None):
            raised = None
            inner = len(events)
            s.iter_count = -1
            try:
                orig(params, unknowns, resids, system, metadata)
            except AnalysisError as err:
                raised = err
                raise
            except ValueError:
                raised = 'value'
                raise
            finally:
                if raised != 'value':
                    foreign = raised is not None and (str(raised) == 'planted' or
                                                      any(e is raised for e in events[inner:]))
                    check(s.iter_count <= o['maxiter'], '%s in %r: %d iterations, limit %d', type(s).__name__,
                          system.pathname, s.iter_count, o['maxiter'])
                    if not foreign:
                        judge(s, o, mem, system, raised)
                    if raised is not None:
                        events.append(raised)
        s.solve = solve

    def judge(s, o, mem, system, raised):
        who = '%s in %r' % (type(s).__name__, system.pathname)
        if o['kind'] == 'gs' and o['maxiter'] == 1:
            log.label('single pass')
            check(raised is None, '%s with maxiter=1 raised %s', who, raised)
            return
        z = case.z()
        x = np.array(p['p.x'], dtype=float)
        r = case.residual(x, z)[mem]
        # an explicit cell outside of all loops of this system need not have a residual to monitor
        loop = case.loops(mem)
        invalid = any(not np.all(np.isfinite(r[k])) for k, i in enumerate(mem) if loop[i] or case.kinds[i] != 'exp')
        if not invalid and not np.all(np.isfinite(r)):
            log.label('unmonitored nan')
            return
        limit = s.iter_count >= o['maxiter']
        failed = limit or invalid
        if failed:
            log.label('failed:' + ('nan' if invalid else 'limit'))
            check((raised is not None) == o['err'],
                  '%s failed (%d of %d iterations, residual %s) with err_on_maxiter=%s and %s', who, s.iter_count,
                  o['maxiter'], np.abs(r).max(), o['err'],
                  'raised %s' % raised if raised is not None else 'raised nothing')
            return
        if case.fired and case.fault['kind'] == 'nan' and (raised is None or o['err']):
            # a residual evaluation was invalid, which does not touch the states
            log.label('failed:nan residual')
            return
        check(raised is None, '%s raised %r after %d of %d iterations, residual %s', who, raised, s.iter_count,
              o['maxiter'], r.tolist())
        log.label('converged')
        # converged: what was promised?
        # (a solver stops too when the solvers below it, at their own tolerance, do not move any more)
        nr = np.linalg.norm(r) * Kmin
        lim = 1e-12
        for t in case.solvers:
            if set(t[2]) <= set(mem):
                lim += 10.0 ** -t[1]['tol'] * dict(atol=1 + 1e-6, rtol=60.0 * max(1.0, norm0[0]),
                                                   utol=20.0)[t[1]['crit']]
        ok = nr <= lim
        check(ok, '%s stopped after %d of %d iterations (criterion %s=1e-%d) with residual norm %g: states %s', who,
              s.iter_count, o['maxiter'], o['crit'], o['tol'], nr, z[mem].tolist())

    norm0 = [0.0]
    for t in case.solvers:
        wrap(*t)
    rng = np.random.RandomState(0)
    log.label('top:%s' % top[1]['kind'])
    for k, (x, start) in enumerate(spec['runs']):
        xv = np.array([x / 2.0, -x / 3.0][:case.size])
        p['p.x'] = xv
        if start is not None:
            rng = np.random.RandomState(start % (2 ** 31))
            z0 = rng.uniform(-10, 10, (case.n, case.size))
            for i in range(case.n):
                p[case.path[i] + '.z'] = z0[i]
        else:
            z0 = case.z()
            if not np.all(np.isfinite(z0)):
                # the last run left an invalid iterate; start over
                for i in range(case.n):
                    p[case.path[i] + '.z'] = np.zeros(case.size)
                z0 = case.z()
        norm0[0] = np.abs(z0).max() + np.abs(case.residual(xv, z0)).max() + 10
        case.armed = bool(case.fault)
        case.fired = False
        for c in p.root.components(recurse=True):
            if hasattr(c, 'calls'):
                c.calls = 0
        events[:] = []
        before = dict((id(t[0]), t[3].deriv_options['type']) for t in case.solvers)
        err = None
        try:
            p.run()
        except AnalysisError as e:
            err = e
            check(str(e) == 'planted' or any(e is x for x in events),
                  'the model raised %r that no solver raised', e)
        except ValueError as e:
            if str(e) != 'planted' and not (case.fault and case.fault['kind'] == 'nan' and 'NaN' in str(e)):
                raise
            err = e
        case.armed = False
        for t in case.solvers:
            check(t[3].deriv_options['type'] == before[id(t[0])] and t[3].deriv_options.locked,
                  'a run that ended with %r left deriv_options of %r as type=%r, locked=%r', err, t[3].pathname,
                  t[3].deriv_options['type'], t[3].deriv_options.locked)
        faulted = case.fault and any(c.calls >= case.fault['call'] for c in p.root.components(recurse=True)
                                     if getattr(c, 'i', None) == case.fault['comp'])
        z = case.z()
        s, o, mem, grp = top
        good = all(t[1]['maxiter'] >= 60 for t in case.solvers)
        plain = all(not (t[1].get('aitken')) for t in case.solvers)
        if good and plain and not faulted:
            check(err is None, 'run %d: %r although every solver may take 60 iterations on a contraction', k, err)
            check(s.iter_count < o['maxiter'], 'run %d: %s did not converge in %d iterations on a contraction '
                  'with factor %s', k, type(s).__name__, s.iter_count, lip)
            if case.linear and o['kind'] == 'newton' and len(case.solvers) == 1 and o['crit'] == 'atol':
                check(s.iter_count <= 3, 'Newton took %d iterations on a linear system', s.iter_count)
        if err is None and s.iter_count < o['maxiter'] and not faulted:
            log.nontrivial(case.n >= 3 and k > 0 or len(case.solvers) > 1)
            ref = case.solution(xv)
            tol = max(10.0 ** -t[1]['tol'] * (60 * max(1.0, norm0[0]) if t[1]['crit'] == 'rtol' else 1.0)
                      for t in case.solvers)
            bound = (30 * tol + 1e-11) / (1 - min(lip, 0.75)) * np.sqrt(case.n * case.size)
            check(np.max(np.abs(z - ref)) <= bound, 'run %d: %s returned normally after %d of %d iterations with %s, '
                  'the solution is %s (tolerance %s=1e-%d)', k, type(s).__name__, s.iter_count, o['maxiter'],
                  z.tolist(), ref.tolist(), o['crit'], o['tol'])
            if spec['wrap']:
                check(np.allclose(p['post.s'], z.sum(axis=0), rtol=1e-12, atol=1e-12),
                      'component after the solver got other values than the solver returned')


def run_repeat(spec, log):
    """The last of several solves gives what a fresh problem gives from the same start."""
    from openmdao.api import AnalysisError
    spec = dict(spec, fault=None)
    res = []
    for runs in (spec['runs'], spec['runs'][-1:]):
        case = Case(spec)
        p = case.build(log)
        for x, start in runs:
            p['p.x'] = np.array([x / 2.0, -x / 3.0][:case.size])
            z0 = np.random.RandomState((start or 0) % (2 ** 31)).uniform(-10, 10, (case.n, case.size))
            for i in range(case.n):
                p[case.path[i] + '.z'] = z0[i]
            err = None
            try:
                p.run()
            except AnalysisError as e:
                err = str(e)
        res.append((case.solvers[0][0].iter_count, err, case.z()))
    a, b = res
    o = spec['tree']['solver']
    log.label('top:' + o['kind'] + ('+aitken' if o.get('aitken') else ''))
    log.nontrivial(len(spec['runs']) > 1 and a[0] > 1)
    check(a[:2] == b[:2] and np.allclose(a[2], b[2], rtol=1e-9, atol=1e-12, equal_nan=True),
          'the last of %d solves: %d iterations, %s, states %s; the same solve in a fresh problem: %d iterations, %s, '
          'states %s', len(spec['runs']), a[0], a[1], a[2].tolist(), b[0], b[1], b[2].tolist())

# ------------------------------------------------------------------ Brent
@st.composite
def brents(draw):
    kind = draw(st.sampled_from(['cubic', 'atan', 'exp', 'linear']))
    return dict(kind=kind, size=draw(st.integers(1, 3)), idx=draw(st.integers(0, 2)), seed=draw(st.integers(0, 10 ** 6)),
                lo=draw(st.integers(-6, 3)), width=draw(st.integers(1, 8)), var=draw(st.integers(0, 3)),
                xtol=draw(st.sampled_from([0, 0, 1e-3, 1e-1, 1e-6])), rtol=draw(st.sampled_from([None, None, 1e-3, 1e-8])),
                maxiter=draw(st.sampled_from([100, 100, 100, 100, 1, 2, 3, 4, 6])), err=draw(st.booleans()),
                iprint=draw(st.sampled_from([-1, -1, 0, 1, 2])), sign=draw(st.sampled_from([1, -1])),
                nest=draw(st.booleans()), prom=draw(st.booleans()), fb=draw(st.booleans()),
                runs=draw(st.lists(st.tuples(st.sampled_from(['in', 'in', 'in', 'lo', 'hi', 'out']),
                                             st.integers(1, 99)).map(list), min_size=1, max_size=3)))


def brent_f(kind, d):
    """Strictly increasing, zero exactly at zero."""
    if kind == 'cubic':
        return d * d * d + 0.5 * d
    if kind == 'atan':
        return np.arctan(4.0 * d)
    if kind == 'exp':
        return np.expm1(d)
    return 2.0 * d


def run_brent(spec, log):
    from openmdao.api import (Problem, Group, Component, IndepVarComp, Brent, DirectSolver, ExecComp, AnalysisError)
    size = spec['size']
    idx = spec['idx'] % size

    class Chain(Component):
        """y = z + t, an explicit step between the state and the residual."""

        def __init__(self):
            super(Chain, self).__init__()
            self.add_param('z', np.zeros(size))
            self.add_param('t', 0.0)
            self.add_output('y', np.zeros(size))

        def solve_nonlinear(self, params, unknowns, resids):
            unknowns['y'] = params['z'] - params['t']

    class Res(Component):
        def __init__(self):
            super(Res, self).__init__()
            self.add_param('y', np.zeros(size))
            self.add_param('lower', 0.0)
            self.add_param('upper', 0.0)
            self.add_state('z', np.zeros(size))
            self.asked = []

        def solve_nonlinear(self, params, unknowns, resids):
            pass

        def apply_nonlinear(self, params, unknowns, resids):
            self.asked.append(float(unknowns['z'][idx]))
            y = params['y'] if not spec['fb'] else unknowns['z'] - self.t[0]
            resids['z'] = spec['sign'] * brent_f(spec['kind'], y)

    p = Problem(root=Group())
    top = p.root
    top.add('i', IndepVarComp([('t', 0.0), ('lo', 0.0), ('hi', 0.0)]))
    g = top.add('g', Group()) if spec['nest'] else top
    pre = 'g.' if spec['nest'] else ''
    res, chain = Res(), Chain()
    res.t = [0.0]
    if spec['prom']:
        g.add('res', res, promotes=['*'])
        g.add('chain', chain, promotes=['*'])
        zn, yn, tn, ln, un = 'z', 'y', 't', 'lower', 'upper'
    else:
        g.add('res', res)
        g.add('chain', chain)
        g.connect('res.z', 'chain.z')
        g.connect('chain.y', 'res.y')
        zn, yn, tn, ln, un = 'res.z', 'chain.y', 'chain.t', 'res.lower', 'res.upper'
    top.connect('i.t', pre + tn)
    top.connect('i.lo', pre + ln)
    top.connect('i.hi', pre + un)
    top.add('post', ExecComp('s=2.0*z', z=np.zeros(size), s=np.zeros(size)))
    top.connect(pre + zn, 'post.z')
    top.ln_solver = DirectSolver()
    g.ln_solver = DirectSolver()
    s = Brent()
    s.options['state_var'] = zn
    s.options['state_var_idx'] = idx
    s.options['xtol'] = float(spec['xtol'])
    if spec['rtol']:
        s.options['rtol'] = spec['rtol']
    s.options['maxiter'] = spec['maxiter']
    s.options['err_on_maxiter'] = spec['err']
    s.options['iprint'] = spec['iprint']
    if spec['var'] & 1:
        s.options['var_lower_bound'] = pre + ln
    if spec['var'] & 2:
        s.options['var_upper_bound'] = pre + un
    if spec['nest']:
        g.nl_solver = s
    else:
        # the lower level is the root itself: run it with everything
        g.nl_solver = s
    p.setup(check=False)
    rng = np.random.RandomState(spec['seed'])
    rest0 = rng.uniform(-3, 3, size)
    p[pre + zn] = rest0
    lo, hi = float(spec['lo']), float(spec['lo'] + spec['width'])
    for k, (where, frac) in enumerate(spec['runs']):
        if k and spec['var'] == 3:
            lo, hi = lo - 1.0, hi + 0.5
        if not spec['var'] & 1:
            s.options['lower_bound'] = lo
        if not spec['var'] & 2:
            s.options['upper_bound'] = hi
        root = {'in': lo + (hi - lo) * frac / 100.0, 'lo': lo, 'hi': hi, 'out': hi + frac}[where]
        p['i.t'], p['i.lo'], p['i.hi'] = root, lo, hi
        res.t[0] = root
        res.asked[:] = []
        err = None
        try:
            p.run()
        except AnalysisError as e:
            err = e
        except ValueError as e:
            check(where == 'out', 'ValueError %s for a root at %s of [%s, %s]', e, root, lo, hi)
            log.label('no sign change')
            continue
        check(where != 'out', 'no error, although the residual has the same sign at both bounds [%s, %s] (root %s)',
              lo, hi, root)
        bad = [a for a in res.asked[1:] if not lo - 1e-12 <= a <= hi + 1e-12]
        check(not bad, 'run %d: state tried at %s, bounds [%s, %s]', k, bad, lo, hi)
        check(s.iter_count <= spec['maxiter'] + 3, '%d evaluations for a limit of %d iterations', s.iter_count,
              spec['maxiter'])
        if err is not None:
            check(spec['err'], 'AnalysisError %s without err_on_maxiter', err)
            check(spec['maxiter'] < 50, 'AnalysisError %s with %d iterations', err, spec['maxiter'])
            log.label('failed')
            continue
        z = np.array(p[pre + zn], dtype=float)
        other = np.delete(z, idx)
        check(np.array_equal(other, np.delete(rest0, idx)), 'run %d: entries other than %d of the state changed: %s, '
              'were %s', k, idx, z.tolist(), rest0.tolist())
        tol = (spec['xtol'] or 2e-12) + (spec['rtol'] or 1e-15) * abs(root) + 1e-14
        conv = abs(z[idx] - root) <= tol
        if spec['maxiter'] < 50 and not conv:
            # failed silently: allowed only if not asked to raise
            check(not spec['err'], 'run %d: no AnalysisError although the state is %r after %d evaluations, root %r',
                  k, z[idx], s.iter_count, root)
            log.label('failed quietly')
            continue
        check(conv, 'run %d: state %r, root %r of residual %s, tolerance %g', k, z[idx], root, spec['kind'], tol)
        check(np.allclose(p[pre + yn], z - root, rtol=1e-12, atol=1e-12), 'run %d: %s=%s does not follow from the '
              'state %s', k, yn, p[pre + yn], z)
        check(np.allclose(p['post.s'], 2 * z, rtol=1e-12, atol=1e-12), 'run %d: component after the group has %s for '
              'state %s', k, p['post.s'], z)
        log.label('root at ' + where)
        log.nontrivial(where != 'in' or spec['xtol'] > 1e-6 or size > 1)


FACETS = [
    Facet('repeat', systems, run_repeat, 600, rule='at least two solves, the last with more than one iteration'),
    Facet('brent', brents, run_brent, 1200, rule='root at a bound, loose tolerance, or an array state'),
    Facet('coupled', systems, run_solver, 1500,
          rule='a nested solver, or a repeated solve of at least three coupled cells, that converged'),
]
