"""C12: one record per iteration of a driver or nonlinear solver, with the right coordinate and selection."""
from fnmatch import fnmatchcase

import numpy as np
from hypothesis import strategies as st

from pbt.core import Facet, check

ASSUMPTIONS = ['"an iteration" of an object is one execution of its children (RunOnce, NLGaussSeidel), one Newton step '
               '(the initial evaluation is iteration 0 and not recorded), one evaluation of Brent, one run of the model '
               'by a driver', 'iterations of solvers inside a finite difference are only required to be recorded under '
               'coordinates of their own']

NAMES = ['a', 'ab', 'b', 'g', 'g2', 'sub']
PATTERNS = ['*', '*.*', 'a*', '*a*', '*b', 'g*', '*.y', '?', '*y*', 'root', '', '*.x', 'g.*', '[ab]*', '*.t.*', 'x0', 'a.y']


@st.composite
def group(draw, depth):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True))
    kids = []
    for i, n in enumerate(names):
        kind = draw(st.sampled_from(['comp', 'comp', 'group', 'group'] if depth else ['comp']))
        if kind == 'comp':
            kids.append(dict(n=n, k='comp', s=draw(st.sampled_from([0, 1, 3])), prom=draw(st.booleans()),
                             pbo=draw(st.booleans())))
        else:
            kids.append(dict(n=n, k='group', prom=draw(st.integers(0, 3)) == 0, **draw(group(depth - 1))))
    solver = draw(st.sampled_from(['once', 'once', 'gs', 'gs', 'newton', 'newton0', 'brent']))
    return dict(kids=kids, solver=solver, it=draw(st.integers(1, 3)), ls=draw(st.integers(0, 2)) == 0)


@st.composite
def recorder(draw):
    r = {}
    for key in ('record_params', 'record_unknowns', 'record_resids'):
        r[key] = draw(st.sampled_from([None, True, True, False]))
    pat = st.lists(st.sampled_from(PATTERNS), max_size=3)
    r['includes'] = draw(st.one_of(st.none(), pat))
    r['excludes'] = draw(st.one_of(st.none(), st.none(), pat))
    return r


def paths(g, path=''):
    out = [path]
    for c in g['kids']:
        if c['k'] == 'group':
            out += paths(c, (path + '.' if path else '') + c['n'])
    return out


@st.composite
def cases(draw):
    tree = draw(group(draw(st.integers(0, 3))))
    ps = paths(tree)
    recs = draw(st.lists(recorder(), min_size=1, max_size=3))
    # where each recorder is attached: -1 the driver, otherwise the nonlinear solver of group i
    where = [draw(st.lists(st.integers(-1, len(ps) - 1), min_size=1, max_size=3, unique=True)) for _ in recs]
    drv = draw(st.sampled_from(['base', 'base', 'base', 'scipy', 'doe']))
    return dict(tree=tree, recs=recs, where=where, driver=drv, runs=draw(st.integers(1, 3)),
                fd=draw(st.integers(0, 3)) == 0, resetup=draw(st.integers(0, 5)) == 0)


def run(spec, log):
    from openmdao.api import (Problem, Group, Component, IndepVarComp, RunOnce, NLGaussSeidel, Newton, Brent,
                              ScipyGMRES, InMemoryRecorder, ScipyOptimizer, UniformDriver)
    from openmdao.solvers.backtracking import BackTracking
    trace = []      # the history: ('enter', path), ('exit', path, iter_count), ('tick', path), ('rec', recorder, path, data)
    stack = []
    groups = {}

    class Tick(Component):
        """Counts the executions of the children of its group."""

        def __init__(self, path):
            super(Tick, self).__init__()
            self.path = path
            self.add_output('o', 0.0)

        def solve_nonlinear(self, params, unknowns, resids):
            trace.append(('tick', self.path))

        def apply_nonlinear(self, params, unknowns, resids):
            resids['o'] = 0.0       # (the default runs solve_nonlinear, which is not an iteration)

        def linearize(self, params, unknowns, resids):
            return {}

    class Cycle(Component):
        """Two of these make a cycle that diverges slowly under Gauss-Seidel."""

        def __init__(self, i, o):
            super(Cycle, self).__init__()
            self.i, self.o = i, o
            self.add_param(i, 0.0)
            self.add_output(o, 0.0)

        def solve_nonlinear(self, params, unknowns, resids):
            unknowns[self.o] = 1.25 * params[self.i] + 1.0

        def linearize(self, params, unknowns, resids):
            return {(self.o, self.i): np.array([[1.25]])}

    class State(Component):
        """One scalar state, 0 = (s - 3)^3 + (s - 3), for Newton and Brent."""

        def __init__(self):
            super(State, self).__init__()
            self.add_state('s', 0.0)

        def solve_nonlinear(self, params, unknowns, resids):
            pass

        def apply_nonlinear(self, params, unknowns, resids):
            d = unknowns['s'] - 3.0
            resids['s'] = d ** 3 + d

        def linearize(self, params, unknowns, resids):
            d = unknowns['s'] - 3.0
            return {('s', 's'): np.array([[3 * d ** 2 + 1.0]])}

    class Leaf(Component):
        def __init__(self, k):
            super(Leaf, self).__init__()
            self.shape = k['s']
            v = 1.0 if k['s'] == 0 else np.ones(k['s'])
            self.add_param('x', v)
            self.add_output('y', v)
            if k['pbo']:
                self.add_output('text', 'abc', pass_by_obj=True)

        def solve_nonlinear(self, params, unknowns, resids):
            unknowns['y'] = params['x'] * 2.0

        def linearize(self, params, unknowns, resids):
            n = max(self.shape, 1)
            return {('y', 'x'): 2.0 * np.eye(n)}

    def name_of(path):
        return path.split('.')[-1] if path else 'root'

    class Rec(InMemoryRecorder):
        """The in-memory recorder, telling the history when it was called."""

        def record_iteration(self, params, unknowns, resids, metadata):
            super(Rec, self).record_iteration(params, unknowns, resids, metadata)
            trace.append(('rec', self.number, stack[-1] if stack else None, self.iters[-1]))

    def build(g, path, top):
        grp = top if top is not None else Group()
        groups[path] = grp
        grp.add('t', Tick(path))
        for c in g['kids']:
            sub = (path + '.' if path else '') + c['n']
            if c['k'] == 'comp':
                grp.add(c['n'], Leaf(c), promotes=['y'] if c['prom'] and 'y' not in used(grp) else None)
            else:
                grp.add(c['n'], build(c, sub, None))
        s = g['solver']
        grp.ln_solver = ScipyGMRES()
        if s == 'gs':
            grp.add('c1', Cycle('p', 'q'), promotes=['p', 'q'])
            grp.add('c2', Cycle('q', 'p'), promotes=['p', 'q'])
            grp.nl_solver = NLGaussSeidel()
            grp.nl_solver.options['maxiter'] = g['it']
        elif s in ('newton', 'newton0'):
            grp.add('st', State(), promotes=['s'] if path else None)
            grp.nl_solver = Newton()
            grp.nl_solver.options['maxiter'] = g['it']
            grp.nl_solver.options['solve_subsystems'] = s == 'newton'
            if g['ls']:
                grp.nl_solver.line_search = BackTracking()
                grp.nl_solver.line_search.options['maxiter'] = 2
                grp.nl_solver.line_search.options['solve_subsystems'] = s == 'newton'
                grp.nl_solver.line_search.options['c'] = 0.9
        elif s == 'brent':
            grp.add('st', State())
            grp.nl_solver = Brent()
            grp.nl_solver.options['state_var'] = 'st.s'
            grp.nl_solver.options['lower_bound'] = -10.0
            grp.nl_solver.options['upper_bound'] = 13.0
            grp.nl_solver.options['maxiter'] = 4 * g['it']
        else:
            grp.nl_solver = RunOnce()
        grp.nl_solver.options['iprint'] = 0
        if 'atol' in grp.nl_solver.options._options:
            grp.nl_solver.options['atol'] = 1e-30
            grp.nl_solver.options['rtol'] = 1e-30
        solver = grp.nl_solver
        orig = solver.solve

        def solve(*args, **kwargs):
            trace.append(('enter', path))
            stack.append(path)
            try:
                return orig(*args, **kwargs)
            finally:
                stack.pop()
                trace.append(('exit', path, solver.iter_count))
        solver.solve = solve
        return grp

    def used(grp):
        return [p for s in grp._subsystems.values() for p in (s._promotes or ())]

    kinds = {}

    def walk(g, path):
        kinds[path] = (g['solver'], g['ls'])
        for c in g['kids']:
            if c['k'] == 'group':
                walk(c, (path + '.' if path else '') + c['n'])
    walk(spec['tree'], '')

    prob = Problem(root=Group())
    prob.root.add('p0', IndepVarComp('x0', 1.5), promotes=['*'])
    prob.root.add('f', Leaf(dict(s=0, pbo=False)))
    prob.root.connect('x0', 'f.x')
    build(spec['tree'], '', prob.root)
    drvname = 'Driver'
    if spec['driver'] == 'scipy':
        drv = prob.driver = ScipyOptimizer()
        drv.options['optimizer'] = drvname = 'L-BFGS-B'
        drv.options['maxiter'] = 2
        drv.options['disp'] = False
    elif spec['driver'] == 'doe':
        drv = prob.driver = UniformDriver(num_samples=spec['runs'], seed=1)
    else:
        drv = prob.driver
    if spec['driver'] != 'base':
        drv.add_desvar('x0', lower=0.5, upper=4.0)
        drv.add_objective('f.y')

    ps = paths(spec['tree'])
    recs = []
    for i, (r, w) in enumerate(zip(spec['recs'], spec['where'])):
        rec = Rec()
        rec.number = i
        rec.options['record_metadata'] = False
        for key, v in r.items():
            if v is not None:
                rec.options[key] = list(v) if isinstance(v, (list, tuple)) else v
        for k in w:
            if k < 0:
                drv.add_recorder(rec)
            else:
                groups[ps[k]].nl_solver.add_recorder(rec)
        recs.append(rec)
    attached = {i: set('*driver' if k < 0 else ps[k] for k in w) for i, w in enumerate(spec['where'])}

    prob.setup(check=False)
    if spec['resetup']:
        prob.setup(check=False)
    nrun = 1
    if spec['driver'] == 'base':
        nrun = spec['runs']
    for _ in range(nrun):
        prob.run()
    end = len(trace)
    if spec['fd']:
        prob.calc_gradient(['x0'], ['f.y'], mode='fd')
        log.label('fd')

    # --- the selection -------------------------------------------------------------------------
    def selected(rec, names):
        inc, exc = rec.options['includes'], rec.options['excludes']
        return set(n for n in names if any(fnmatchcase(n, p) for p in inc)
                   and not any(fnmatchcase(n, p) for p in exc))

    interesting = False
    for ev in trace:
        if ev[0] != 'rec':
            continue
        _, i, path, data = ev
        g = groups[path or '']
        for key, opt, names in (('params', 'record_params', list(g.params)), ('unknowns', 'record_unknowns', list(g.unknowns)),
                                ('resids', 'record_resids', list(g.unknowns))):
            if not recs[i].options[opt]:
                check(key not in data, 'recorder %d has %s although %s is off', i, key, opt)
                continue
            check(key in data, 'recorder %d lacks %s although %s is on', i, key, opt)
            want = selected(recs[i], names)
            check(set(data[key]) == want, 'recorder %d at %r recorded %s %s, selected are %s (includes %s, excludes %s)',
                  i, path, key, sorted(data[key]), sorted(want), recs[i].options['includes'], recs[i].options['excludes'])
            if 0 < len(want) < len(names):
                interesting = True
    # --- one record per iteration, for every recorder and object --------------------------------
    for i in range(len(recs)):
        coords = [ev[3]['iter'] for ev in trace if ev[0] == 'rec' and ev[1] == i]
        check(len(set(coords)) == len(coords), 'coordinates of recorder %d are not distinct: %s', i, coords)

    def parse(c):
        head, rest = c.split(':', 1)
        check(head == 'rank0', 'coordinate %s', c)
        parts = rest.split('|')
        return [(parts[j], tuple(int(v) for v in parts[j + 1].split('-'))) for j in range(0, len(parts) - 1, 2)]

    calls = []      # open solver calls: [path, ticks, {recorder: [coords]}, children's coords since the last record]
    roots = 0
    drvrecs = {}
    allrecs = {}
    waiting = []    # coordinates of children that await the number of their driver iteration
    for ev in trace[:end]:
        if ev[0] == 'enter':
            calls.append([ev[1], 0, {}])
            if len(calls) == 1:
                roots += 1
        elif ev[0] == 'tick':
            if calls[-1][0] == ev[1]:
                calls[-1][1] += 1
        elif ev[0] == 'rec':
            _, i, path, data = ev
            c = parse(data['iter'])
            if path is None:
                check('*driver' in attached[i], 'recorder %d was called by a driver it is not attached to', i)
                check(c[0][0] == drvname and len(c) == 1, 'driver coordinate %s', data['iter'])
                drvrecs.setdefault(i, []).append((c, roots))
                continue
            check(path in attached[i], 'recorder %d was called by the solver of %r but is not attached there', i, path)
            chain = [drvname] + [name_of(q) for q in [''] + ['.'.join(path.split('.')[:j + 1])
                                                             for j in range(len(path.split('.')) if path else 0)]]
            check([n for n, _ in c] == chain, 'coordinate %s does not spell out %s', data['iter'], chain)
            calls[-1][2].setdefault(i, []).append(c)
            allrecs.setdefault((i, path), []).append(c)
        else:
            _, path, count = ev
            kind, ls = kinds[path]
            _, ticks, got = calls.pop()
            for i in range(len(recs)):
                if path not in attached[i]:
                    continue
                mine = got.get(i, [])
                last = [c[-1][1] for c in mine]
                check(all(a < b for a, b in zip(last, last[1:])), 'iteration numbers of %r do not increase: %s', path, last)
                check(len(set(tuple(c[:-1]) for c in mine)) <= 1, 'one solve of %r under several parents: %s', path, mine)
                if kind == 'once':
                    check(len(mine) == 1 and ticks == 1, 'RunOnce of %r: %d records, %d executions', path, len(mine), ticks)
                elif kind == 'gs':
                    check(last == [(j + 1,) for j in range(ticks)], 'NLGaussSeidel of %r: records %s for %d iterations',
                          path, last, ticks)
                elif kind == 'brent':
                    check(len(mine) == ticks and last == [(j,) for j in range(ticks)], 'Brent of %r: records %s for %d '
                          'evaluations', path, last, ticks)
                else:
                    main = [t for t in last if t[1] == 0]
                    check(main == [(j + 1, 0) for j in range(count)], 'Newton of %r: records %s for %d iterations', path,
                          last, count)
                    if not ls:
                        check(len(main) == len(last), 'Newton of %r: records %s', path, last)
                    if kind == 'newton':
                        check(ticks == len(last) + 1, 'Newton of %r: %d records for %d evaluations', path, len(last), ticks)
                log.label('records ' + kind)
    for i, a in attached.items():
        if '*driver' not in a:
            continue
        mine = drvrecs.get(i, [])
        n = roots - (1 if spec['driver'] == 'scipy' else 0)
        check(len(mine) == n, 'driver: %d records for %d runs of the model', len(mine), n)
        nums = [c[0][1] for c, _ in mine]
        check(all(a < b for a, b in zip(nums, nums[1:])), 'driver iteration numbers do not increase: %s', nums)
        log.label('records driver ' + spec['driver'])
    # records of one object come in increasing order, and their prefix is the number of the enclosing iteration
    for (i, path), cs in allrecs.items():
        flat = [[t for _, t in c] for c in cs]
        check(all(a < b for a, b in zip(flat, flat[1:])), 'coordinates of %r are not in execution order: %s', path, flat)
    for (i, path), cs in allrecs.items():
        for (k, path2), cs2 in allrecs.items():
            if path2 and (path == '' or path2.startswith(path + '.')) and path2 != path:
                n = len(cs[0])
                known = [tuple(c) for c in cs]
                for c in cs2:
                    pre = tuple(c[:n])
                    check(pre in known or pre[-1][1] in ((0, 0), (0,)), 'record %s lies in iteration %s, which is not one '
                          'of %r: %s', c, pre, path, known)
                    log.label('nested records')
    depth = max(len(p.split('.')) if p else 0 for a in attached.values() for p in a if p != '*driver') \
        if any(p != '*driver' for a in attached.values() for p in a) else -1
    log.label('attached at depth %d' % depth)
    log.nontrivial(interesting or depth > 0)


FACETS = [
    Facet('records', cases, run, 500, rule='some but not all variables selected, or a recorder on a nested solver'),
]
