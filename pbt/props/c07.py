"""C07 line searches keep bounded states within their bounds."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Facet, check

ASSUMPTIONS = ['the states are only moved by the Newton solver (the components do not solve themselves)',
               'monotone means: every residual is a strictly monotone function of its own state, '
               'with the root strictly inside the bounds', 'serial execution']


def grid(draw, lo, hi):
    return draw(st.integers(lo, hi)) / 4.0


@st.composite
def cases(draw, couple):
    blocks = []
    for _ in range(draw(st.integers(1, 3 if couple else 2))):
        states = []
        for _ in range(draw(st.integers(1, 2))):
            shape = draw(st.sampled_from([[], [], [1], [2], [3], [2, 2], [1, 3]]))
            n = int(np.prod(shape)) if shape else 1
            entries = []
            for _ in range(n):
                root = grid(draw, -20, 20)
                lo = root - draw(st.sampled_from([0.25, 0.5, 1.0, 3.0, 50.0, 10.0, 100.0 / 3]))
                hi = root + draw(st.sampled_from([0.25, 0.5, 1.0, 3.0, 50.0, 10.0, 100.0 / 3]))
                entries.append(dict(root=root, lo=lo, hi=hi, at=draw(st.sampled_from(
                    [0.5, 0.01, 0.99, 0.3, 0.77, 0.999999, 0.1, 0.9, 0.5, 0.6, 0.2, 0.8, 0.7, 0.3, 0.4] * (1 if couple else 4) + [0, 1, 0, 1])),
                    k=draw(st.sampled_from([0.2, 1.0, -1.0, 3.0])), a=draw(st.sampled_from([0.0, 0.0, 1.0, 3.0])),
                    s=draw(st.sampled_from([1.0, 4.0])), q=draw(st.sampled_from([0.0, 0.0, 0.3]))))
            states.append(dict(shape=shape, entries=entries,
                               lower=draw(st.sampled_from(['no', 'scalar', 'array', 'list'])),
                               upper=draw(st.sampled_from(['no', 'scalar', 'array', 'list'])),
                               resid_scaler=draw(st.sampled_from([None, None, None, 0.5, 10.0]))))
        blocks.append(dict(states=states, out=draw(st.booleans()), obj=draw(st.integers(0, 3)) == 0,
                           first=draw(st.booleans()), order=draw(st.booleans())))
    return dict(blocks=blocks, couple=couple, nest=draw(st.integers(0, 2)), promote=draw(st.booleans()),
                ls=True if not couple else draw(st.integers(0, 3)) > 0,
                ls_subs=draw(st.booleans()), nl_subs=draw(st.booleans()),
                ln=draw(st.sampled_from(['direct', 'gmres', 'own_direct'])),
                alpha=1.0 if not couple else draw(st.sampled_from([1.0, 1.0, 0.5, 3.0, 10.0])),
                rho=0.5 if not couple else draw(st.sampled_from([0.5, 0.9, 0.1])),
                c=0.1 if not couple else draw(st.sampled_from([0.1, 0.5, 0.9, 1.0])),
                lsiter=12 if not couple else draw(st.sampled_from([0, 1, 5, 10])),
                eps=draw(st.sampled_from([0.1, 0.5, -0.3])) if couple else 0.0,
                strict=False)


def shaped(st_, vals):
    if not st_['shape']:
        return float(vals[0])
    return np.array(vals, dtype=float).reshape(st_['shape'])


def bounds(state, bounded=True):
    """(lower, upper) arrays that apply to the flattened state; +-inf without bound."""
    n = len(state['entries'])
    lo, hi = np.full(n, -np.inf), np.full(n, np.inf)
    if bounded:
        el = np.array([e['lo'] for e in state['entries']])
        eh = np.array([e['hi'] for e in state['entries']])
        roots = np.array([e['root'] for e in state['entries']])
        if state['lower'] == 'scalar':
            lo[:] = min(el.min(), roots.min() - 0.1)
        elif state['lower'] != 'no':
            lo = el
        if state['upper'] == 'scalar':
            hi[:] = max(eh.max(), roots.max() + 0.1)
        elif state['upper'] != 'no':
            hi = eh
    return lo, hi


def start(state):
    """Feasible start values (inside the bounds, possibly on them)."""
    lo, hi = bounds(state)
    out = []
    for e, l, h in zip(state['entries'], lo, hi):
        l = l if np.isfinite(l) else e['lo']
        h = h if np.isfinite(h) else e['hi']
        at = e['at']
        v = l if at == 0 else h if at == 1 else l + at * (h - l)
        out.append(min(max(v, l), h))
    return np.array(out)


def build(spec, bounded, log):
    from openmdao.api import (Problem, Group, Component, IndepVarComp, Newton,
                              ScipyGMRES, DirectSolver)

    from openmdao.solvers.backtracking import BackTracking

    class Block(Component):
        def __init__(self, i):
            super(Block, self).__init__()
            self.i, self.b = i, spec['blocks'][i]
            self.has_y = self.b['out'] or spec['couple']
            self.add_param('t', 0.0)
            if spec['couple']:
                for j in range(len(spec['blocks'])):
                    if j != i:
                        self.add_param('m%d' % j, 0.0)
            if self.b['first']:
                self.outs()
            names = list(range(len(self.b['states'])))
            for k in (names if self.b['order'] else names[::-1]):
                s = self.b['states'][k]
                kw = {}
                lo, hi = bounds(s, bounded)
                for key, arr in (('lower', lo), ('upper', hi)):
                    if bounded and s[key] != 'no':
                        kw[key] = (float(arr[0]) if s[key] == 'scalar' or not s['shape'] else
                                   arr.reshape(s['shape']) if s[key] == 'array' else
                                   arr.reshape(s['shape']).tolist())
                if s['resid_scaler']:
                    kw['resid_scaler'] = s['resid_scaler']
                self.add_state('x%d' % k, shaped(s, np.zeros(len(s['entries']))), **kw)
            if not self.b['first']:
                self.outs()

        def outs(self):
            if self.b['obj']:
                self.add_output('o', {'a': 1}, pass_by_obj=True)
            if self.has_y:
                self.add_output('y', 0.0)

        def x(self, unknowns):
            return [np.asarray(unknowns['x%d' % k], dtype=float).flatten() for k in range(len(self.b['states']))]

        def solve_nonlinear(self, params, unknowns, resids):
            if self.has_y:
                unknowns['y'] = self.y(unknowns)

        def y(self, unknowns):
            return sum(float(np.sum(x)) for x in self.x(unknowns))

        def push(self, params):
            v = params['t']
            if spec['couple']:
                for j in range(len(spec['blocks'])):
                    if j != self.i:
                        v = v + spec['eps'] * np.tanh(params['m%d' % j])
            return v

        def apply_nonlinear(self, params, unknowns, resids):
            xs = self.x(unknowns)
            for k, x in enumerate(xs):
                log.append((self.i, k, x.copy()))
                s = self.b['states'][k]
                resids['x%d' % k] = shaped(s, [f(e, v) - self.push(params) for e, v in zip(s['entries'], x)])
            if self.has_y:
                resids['y'] = self.y(unknowns) - unknowns['y']

        def linearize(self, params, unknowns, resids):
            J = {}
            xs = self.x(unknowns)
            for k, x in enumerate(xs):
                n = len(x)
                es = self.b['states'][k]['entries']
                J['x%d' % k, 'x%d' % k] = np.diag([df(e, v) for e, v in zip(es, x)])
                J['x%d' % k, 't'] = -np.ones((n, 1))
                if spec['couple']:
                    for j in range(len(spec['blocks'])):
                        if j != self.i:
                            J['x%d' % k, 'm%d' % j] = -spec['eps'] * np.ones((n, 1)) * \
                                (1 - np.tanh(params['m%d' % j]) ** 2)
                if self.has_y:
                    J['y', 'x%d' % k] = np.ones((1, n))
            return J

    root = Group()
    box = root
    path = ''
    for d in range(spec['nest']):
        box = box.add('g%d' % d, Group(), promotes=['*'] if spec['promote'] else None)
        if not spec['promote']:
            path += 'g%d.' % d
    root.add('p', IndepVarComp('t', 0.0))
    blocks = []
    for i in range(len(spec['blocks'])):
        blocks.append(box.add('b%d' % i, Block(i)))
        root.connect('p.t', path + 'b%d.t' % i)
    if spec['couple']:
        for i in range(len(blocks)):
            for j in range(len(blocks)):
                if i != j:
                    root.connect(path + 'b%d.y' % j, path + 'b%d.m%d' % (i, j))
    nl = Newton()
    nl.options['iprint'] = -1
    nl.options['alpha'] = spec['alpha']
    nl.options['maxiter'] = spec.get('maxiter', 60 if not spec['couple'] else 15)
    nl.options['rtol'] = 1e-14
    nl.options['atol'] = 1e-9
    nl.options['solve_subsystems'] = spec['nl_subs']
    if spec['ls']:
        nl.line_search = BackTracking()
        o = nl.line_search.options
        o['iprint'] = -1
        o['maxiter'] = spec['lsiter']
        o['rho'], o['c'] = spec['rho'], spec['c']
        o['solve_subsystems'] = spec['ls_subs']
    lin = ScipyGMRES if spec['ln'] == 'gmres' else DirectSolver
    g = box
    if spec['ln'].startswith('own'):
        nl.ln_solver = lin()
        g.ln_solver = ScipyGMRES()
    else:
        g.ln_solver = lin()
    if spec['nest']:
        root.ln_solver = ScipyGMRES()
    if spec['nest'] > 1:
        root.g0.ln_solver = ScipyGMRES()
    g.nl_solver = nl
    prob = Problem(root=root)
    prob.setup(check=False)
    for i, b in enumerate(spec['blocks']):
        for k, s in enumerate(b['states']):
            prob[path + 'b%d.x%d' % (i, k)] = shaped(s, start(s))
    return prob, nl, path


def f(e, x):
    d = x - e['root']
    sg = 1.0 if e['k'] > 0 else -1.0
    return e['k'] * d + sg * e['a'] * np.tanh(e['s'] * d) + sg * e['q'] * d ** 3


def df(e, x):
    d = x - e['root']
    sg = 1.0 if e['k'] > 0 else -1.0
    return e['k'] + sg * e['a'] * e['s'] * (1 - np.tanh(e['s'] * d) ** 2) + 3 * sg * e['q'] * d ** 2


def final(spec, prob, path):
    return [np.array(prob[path + 'b%d.x%d' % (i, k)], dtype=float).flatten()
            for i, b in enumerate(spec['blocks']) for k in range(len(b['states']))]


def inside(spec, seen, log):
    """Every state ever evaluated is inside its bounds.  Returns True when some bound was reached."""
    hit = False
    for n, (i, k, x) in enumerate(seen):
        s = spec['blocks'][i]['states'][k]
        lo, hi = bounds(s)
        check(bool(np.all(x >= lo) and np.all(x <= hi)),
              'evaluation %d: state x%d of b%d is %s, outside its bounds %s .. %s', n, k, i, x.tolist(),
              lo.tolist(), hi.tolist())
        hit = hit or bool(np.any((x == lo) | (x == hi)))
    return hit


def run(spec, log):
    seen = []
    prob, nl, path = build(spec, True, seen)
    log.label('shape-%d' % max(len(s['shape']) for b in spec['blocks'] for s in b['states']),
              'ls' if spec['ls'] else 'newton-only', 'nest%d' % spec['nest'])
    prob.run()
    first = seen[:sum(len(b['states']) for b in spec['blocks'])]
    hit = inside(spec, seen, log)
    moved = any(not np.array_equal(x, seen[j % len(first)][2]) for j, (_, _, x) in enumerate(seen))
    for (i, k, x) in first:
        s = spec['blocks'][i]['states'][k]
        lo, hi = bounds(s)
        if np.any((start(s) == lo) | (start(s) == hi)):
            log.label('start on bound')
    end = final(spec, prob, path)
    if not spec['couple']:
        log.nontrivial(moved and hit)
        roots = [np.array([e['root'] for e in s['entries']]) for b in spec['blocks'] for s in b['states']]
        flat = [s for b in spec['blocks'] for s in b['states']]
        # known finding C07-sticky: a state that sits exactly on its bound is never moved again, and
        # then the line search never lets the others take a full step
        stuck = False
        for got, root, s in zip(end, roots, flat):
            lo, hi = bounds(s)
            stuck = stuck or bool(np.any((np.abs(got - root) > 1e-6) & ((got == lo) | (got == hi))))
        if stuck and not spec.get('strict'):
            log.label('stuck on bound (known finding)')
            return
        for got, root in zip(end, roots):
            check(bool(np.all(np.abs(got - root) < 1e-6)),
                  'monotone problem with its root strictly inside the bounds did not converge: states %s, root %s '
                  '(%d iterations)', got.tolist(), root.tolist(), nl.iter_count)
        log.label('converged')
    else:
        log.nontrivial(moved and hit)
        free = []
        prob2, nl2, _ = build(spec, False, free)
        prob2.run()
        active = False
        for (i, k, x) in free:
            lo, hi = bounds(spec['blocks'][i]['states'][k])
            if not (np.all(x > lo) and np.all(x < hi)):
                active = True
        if not active:
            log.label('bounds inactive')
            log.nontrivial(moved)
            for a, b in zip(end, final(spec, prob2, path)):
                check(np.array_equal(a, b), 'no bound is reached, but the result is %s with bounds and %s without',
                      a.tolist(), b.tolist())
        else:
            log.label('bounds active')


@st.composite
def step_cases(draw):
    spec = draw(cases(False))
    spec.update(alpha=draw(st.sampled_from([1.0, 1.0, 0.5, 2.0, 5.0])), rho=draw(st.sampled_from([0.5, 0.9, 0.1])),
                c=draw(st.sampled_from([0.1, 0.5, 0.9, 1.0, 5.0])), lsiter=draw(st.sampled_from([0, 1, 2, 5, 10])),
                maxiter=draw(st.integers(1, 4)), ls=draw(st.integers(0, 4)) > 0)
    return spec


def close(a, b):
    return bool(np.all(np.abs(a - b) <= 1e-7 * (1.0 + np.abs(b))))


def run_steps(spec, log):
    """Every point that Newton and the line search try is the one that their definition gives."""
    raw = []
    prob, nl, path = build(spec, True, raw)
    prob.run()
    flat = [(i, k, s) for i, b in enumerate(spec['blocks']) for k, s in enumerate(b['states'])]
    names = [(i, k) for i, k, _ in flat]
    nst = len(flat)
    check(len(raw) % nst == 0, 'blocks were not evaluated equally often')
    points = []
    for n in range(0, len(raw), nst):
        here = {(i, k): x for i, k, x in raw[n:n + nst]}
        check(set(here) == set(names), 'evaluation %d has states %s', n // nst, sorted(here))
        points.append(np.concatenate([here[key] for key in names]))
    es = [e for _, _, s in flat for e in s['entries']]
    lo = np.concatenate([bounds(s)[0] for _, _, s in flat])
    hi = np.concatenate([bounds(s)[1] for _, _, s in flat])
    scale = np.concatenate([np.full(len(s['entries']), s['resid_scaler'] or 1.0) for _, _, s in flat])
    owner = np.concatenate([np.full(len(s['entries']), i) for i, _, s in flat])
    outs = [i for i, b in enumerate(spec['blocks']) if b['out']]

    def resid(x):
        return np.array([f(e, v) for e, v in zip(es, x)])

    def sums(x):
        return np.array([x[owner == i].sum() for i in outs])

    def norm(x, y):
        return float(np.sqrt(np.sum((resid(x) / scale) ** 2) + np.sum((y - sums(x)) ** 2)))

    pos = [0]

    def take(what, want, free, low, high):
        """The next evaluated point, judged."""
        check(pos[0] < len(points), '%s: no evaluation of the model, expected one at %s', what, want.tolist())
        x = points[pos[0]]
        pos[0] += 1
        ok = np.abs(x - want) <= 1e-7 * (1.0 + np.abs(want))
        # C07-sticky: at (or within roundoff of) a bound the state may also stay
        ok |= ~free & (np.abs(x - low) <= 1e-7 * (1.0 + np.abs(low)))
        check(bool(np.all(ok)), '%s: evaluated at %s, expected %s (from %s, bounds %s .. %s)', what, x.tolist(),
              want.tolist(), low.tolist(), lo.tolist(), hi.tolist())
        return x

    x0 = np.concatenate([start(s) for _, _, s in flat])
    x = take('start', x0, np.ones(len(x0), bool), x0, x0)
    y = sums(x)
    first = fnorm = norm(x, y)
    limited = backs = 0
    for it in range(spec['maxiter']):
        if fnorm < 1e-6 or fnorm / first < 1e-10:
            log.label('converged')
            return
        base, ybase, bnorm = x, y, fnorm
        dx = -resid(base) / np.array([df(e, v) for e, v in zip(es, base)])
        dy = -(ybase - sums(base)) + sums(dx)
        free = (np.abs(base - lo) > 1e-9 * (1 + np.abs(base))) & (np.abs(base - hi) > 1e-9 * (1 + np.abs(base)))

        def trial(what, al, solve):
            nonlocal limited
            want = np.clip(base + al * dx, lo, hi)
            limited += int(np.any(want != base + al * dx))
            xn = take(what, want, free, base, None)
            return xn, sums(xn) if solve else ybase + al * dy

        x, y = trial('Newton step %d' % (it + 1), spec['alpha'], spec['nl_subs'])
        fnorm = norm(x, y)
        still = np.abs(np.append(x - base, y - ybase)).max() < 1e-8
        if spec['ls']:
            al = spec['alpha']
            for k in range(spec['lsiter']):
                gap = (bnorm - fnorm) - spec['c'] * al * bnorm
                if abs(gap) < 1e-6 * (bnorm + fnorm):
                    log.label('ambiguous')
                    return
                if gap > 0:
                    break
                al *= spec['rho']
                backs += 1
                x, y = trial('step %d of the line search of Newton step %d' % (k + 1, it + 1), al, spec['ls_subs'])
                fnorm = norm(x, y)
        if still:  # what Newton takes for convergence
            log.label('no further move')
            return
        log.nontrivial(bool(limited and backs) or (limited > 0 and not spec['ls']))
    log.label('backtracked' if backs else 'full steps', 'limited' if limited else 'not limited')
    if abs(fnorm - 1e-9) > 1e-10:
        check(pos[0] == len(points), '%d evaluations of the model, expected %d', len(points), pos[0])


FACETS = [
    Facet('steps', step_cases, run_steps, 300,
          rule='some step is cut by a bound and, with a line search, some step is cut back'),
    Facet('monotone', lambda: cases(False), run, 260,
          rule='the states move and at least one reaches or starts on a bound'),
    Facet('contained', lambda: cases(True), run, 200,
          rule='the states move and a bound is reached, or no bound matters and the run equals the unbounded one'),
]
