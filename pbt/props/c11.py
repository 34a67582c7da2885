"""C11: what the SQLite, HDF5 and in-memory recorders give back is what was in the model."""
import copy
import os

import numpy as np
from hypothesis import strategies as st

from pbt.core import Facet, Scratch, check
from pbt.models import nsize

ASSUMPTIONS = ['only numbers and arrays go to the HDF5 recorder, which documents that it supports nothing else',
               'derivatives asked for several times in one iteration: the last ones are what is stored']

SPECIAL = [0.0, -0.0, 1.0, -1.5, 1e308, -1e-308, 5e-324, float('nan'), float('inf'), float('-inf'), 0.1, 1 / 3.0]
VAL = st.one_of(st.sampled_from(SPECIAL), st.floats(width=64))
OBJ = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(), st.text(max_size=6), st.floats(allow_nan=False)),
                   lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(st.text(max_size=3), c, max_size=3)),
                   max_leaves=5)


@st.composite
def cases(draw):
    recs = []
    for _ in range(draw(st.integers(1, 3))):
        r = dict(kind=draw(st.sampled_from(['sqlite', 'sqlite', 'hdf5', 'mem'])),
                 where=draw(st.lists(st.sampled_from(['driver', 'root', 'g', 'g.h']), min_size=1, max_size=3, unique=True)))
        for key in ('record_params', 'record_resids', 'record_metadata'):
            r[key] = draw(st.booleans())
        r['record_unknowns'] = draw(st.integers(0, 4)) > 0
        r['record_derivs'] = draw(st.integers(0, 4)) > 0
        r['includes'] = draw(st.sampled_from([None, None, ['*'], ['y*', 'x*'], ['*y0*', 'g.*']]))
        r['excludes'] = draw(st.sampled_from([None, None, ['x1'], ['*.z']]))
        recs.append(r)
    vs = []
    for i in range(draw(st.integers(1, 4))):
        if draw(st.integers(0, 3)) == 0:
            vs.append(dict(k='obj', v=[draw(OBJ)]))
        else:
            s = draw(st.sampled_from([0, [1], [3], [2, 2], [0]][:4]))
            vs.append(dict(k='num', s=s))
    runs = []
    for _ in range(draw(st.sampled_from([1, 2, 3, 12]))):
        runs.append(dict(vals=draw(st.lists(VAL, min_size=4, max_size=4)), obj=[draw(OBJ)], succ=draw(st.integers(0, 3)) > 0,
                         msg=draw(st.text(st.characters(blacklist_categories=['Cs'], blacklist_characters='\0'), max_size=5)), gs=draw(st.integers(1, 3)),
                         grad=draw(st.lists(st.sampled_from(['dict', 'array']), max_size=2))))
    return dict(recs=recs, vs=vs, runs=runs, seed=draw(st.integers(0, 99)), inplace=draw(st.booleans()),
                late=draw(st.booleans()))


def same(a, b):
    """Bit for bit."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype \
            and a.tobytes() == b.tobytes()
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
        return np.float64(a).tobytes() == np.float64(b).tobytes()
    if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
        return bool(a) == bool(b)
    if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)):
        return int(a) == int(b)
    if type(a) != type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return a == b


def run(spec, log):
    from openmdao.api import (Problem, Group, Component, IndepVarComp, NLGaussSeidel, ScipyGMRES, SqliteRecorder,
                              InMemoryRecorder, Driver)
    from openmdao.recorders.hdf5_recorder import HDF5Recorder
    from openmdao.recorders.base_recorder import BaseRecorder
    from openmdao.recorders.case_reader import CaseReader
    from openmdao.util.record_util import create_local_meta, update_local_meta, format_iteration_coordinate

    numeric = any(r['kind'] == 'hdf5' for r in spec['recs'])
    vs = [v for v in spec['vs'] if v['k'] == 'num' or not numeric] or [dict(k='num', s=[2])]
    rng = np.random.RandomState(spec['seed'])

    def shaped(s, seq):
        n = nsize(s)
        v = np.resize(np.array(seq, dtype=float), n)
        return float(v[0]) if s == 0 else v.reshape(s)

    class Work(Component):
        """y = x + number of executions; objects are changed in place or replaced."""

        def __init__(self, k):
            super(Work, self).__init__()
            self.count = 0
            for i, v in enumerate(vs):
                if v['k'] == 'num':
                    self.add_param('x%d' % i, shaped(v['s'], [0.0]))
                    self.add_output('y%d' % i, shaped(v['s'], [0.0]))
                else:
                    self.add_param('x%d' % i, copy.deepcopy(v['v']), pass_by_obj=True)
                    self.add_output('y%d' % i, [], pass_by_obj=True)
            self.add_output('n', 0, pass_by_obj=True)

        def solve_nonlinear(self, params, unknowns, resids):
            self.count += 1
            unknowns['n'] = self.count
            for i, v in enumerate(vs):
                x = params['x%d' % i]
                if v['k'] == 'num':
                    unknowns['y%d' % i] = x + self.count * 0.125
                elif spec['inplace']:
                    unknowns['y%d' % i].append([self.count, copy.deepcopy(x)])
                else:
                    unknowns['y%d' % i] = [self.count, copy.deepcopy(x)]

        def linearize(self, params, unknowns, resids):
            return {('y%d' % i, 'x%d' % i): np.eye(nsize(v['s'])) * (1.0 + self.count)
                    for i, v in enumerate(vs) if v['k'] == 'num'}

    class Cycle(Component):
        def __init__(self, i, o):
            super(Cycle, self).__init__()
            self.i, self.o = i, o
            self.add_param(i, 0.0)
            self.add_output(o, 0.0)

        def solve_nonlinear(self, params, unknowns, resids):
            unknowns[self.o] = 1.25 * params[self.i] + 1.0

        def linearize(self, params, unknowns, resids):
            return {(self.o, self.i): np.array([[1.25]])}

    spied = []      # [(recorder number, coordinate, values, meta)]
    spied_derivs = {}

    class Drv(Driver):
        def run(self, problem):
            op = self.op
            self.iter_count += 1
            meta = self.metadata = create_local_meta(None, 'Driver')
            update_local_meta(meta, (self.iter_count,))
            meta['success'] = 1 if op['succ'] else 0
            meta['msg'] = op['msg']
            self.root.solve_nonlinear(metadata=meta)
            self.recorders.record_iteration(self.root, meta)
            self._problem = problem
            outs = ['g.h.w.y%d' % i for i, v in enumerate(vs) if v['k'] == 'num']
            ins = ['x%d' % i for i, v in enumerate(vs) if v['k'] == 'num']
            for fmt in op['grad'] if ins else ():
                J = self.calc_gradient(ins, outs, return_format=fmt)
                spied_derivs[format_iteration_coordinate(meta['coord'])] = (copy.deepcopy(J), meta['timestamp'])
                all_derivs.append(copy.deepcopy(J))
                if fmt == 'array':
                    J[:] = 77.0      # the caller may do with it what it likes
                else:
                    for row in J.values():
                        for b in row.values():
                            b[:] = 77.0
            self._problem = None

    all_derivs = []

    class Spy(BaseRecorder):
        """Copies the vectors of the system at the moment of recording."""

        def __init__(self, number, group, rec):
            super(Spy, self).__init__()
            self.number, self.group, self.rec = number, group, rec

        def record_iteration(self, params, unknowns, resids, metadata):
            g = self.group
            spied.append((self.number, format_iteration_coordinate(metadata['coord']),
                          {'p': {n: copy.deepcopy(g.params[n]) for n in g.params},
                           'u': {n: copy.deepcopy(g.unknowns[n]) for n in g.unknowns},
                           'r': {n: copy.deepcopy(g.resids[n]) for n in g.unknowns}},
                          dict(metadata, coord=None)))

        def record_metadata(self, group):
            pass

        def record_derivatives(self, derivs, metadata):
            pass

    prob = Problem(root=Group(), driver=Drv())
    root = prob.root
    for i, v in enumerate(vs):
        if v['k'] == 'num':
            root.add('p%d' % i, IndepVarComp('x%d' % i, shaped(v['s'], [0.0])), promotes=['*'])
        else:
            root.add('p%d' % i, IndepVarComp('x%d' % i, copy.deepcopy(v['v']), pass_by_obj=True), promotes=['*'])
    g = root.add('g', Group())
    h = g.add('h', Group())
    h.add('w', Work(0))
    for i in range(len(vs)):
        root.connect('x%d' % i, 'g.h.w.x%d' % i)
    h.add('c1', Cycle('z', 'v'), promotes=['*'])
    h.add('c2', Cycle('v', 'z'), promotes=['*'])
    h.ln_solver = ScipyGMRES()
    h.nl_solver = NLGaussSeidel()
    h.nl_solver.options['atol'] = h.nl_solver.options['rtol'] = 1e-30
    groups = {'driver': root, 'root': root, 'g': g, 'g.h': h}
    holders = {'driver': prob.driver, 'root': root.nl_solver, 'g': g.nl_solver, 'g.h': h.nl_solver}

    with Scratch() as d:
        recs = []
        for k, r in enumerate(spec['recs']):
            path = os.path.join(d, 'f%d' % k)
            rec = SqliteRecorder(path) if r['kind'] == 'sqlite' else HDF5Recorder(path) if r['kind'] == 'hdf5' \
                else InMemoryRecorder()
            for key, v in r.items():
                if key not in ('kind', 'where') and v is not None:
                    rec.options[key] = v
            if r['kind'] == 'hdf5' and len(r['where']) > 1:
                rec.options['record_metadata'] = False      # (it stores the metadata of one object)
            for w in r['where']:
                holders[w].add_recorder(rec)
                holders[w].add_recorder(Spy(k, groups[w], rec))
            recs.append((r, rec, path))
        prob.setup(check=False)

        for op in spec['runs']:
            for i, v in enumerate(vs):
                if v['k'] == 'num':
                    prob['x%d' % i] = shaped(v['s'], op['vals'][i % 4:] + op['vals'])
                else:
                    prob['x%d' % i] = copy.deepcopy(op['obj'])
            prob.driver.op = op
            h.nl_solver.options['maxiter'] = op['gs']
            prob.run()
        if spec['late']:     # the model goes on after the last recording
            for i, v in enumerate(vs):
                if v['k'] == 'num':
                    prob['x%d' % i] = shaped(v['s'], [42.0])
            root.solve_nonlinear(metadata=create_local_meta(None, 'Other')) if not any(
                w != 'driver' for r in spec['recs'] for w in r['where']) else None
        prob.cleanup()

        from fnmatch import fnmatchcase
        for k, (r, rec, path) in enumerate(recs):
            mine = [s for s in spied if s[0] == k]
            inc, exc = r['includes'] or ['*'], r['excludes'] or []

            def chosen(vals):
                return {n: v for n, v in vals.items() if any(fnmatchcase(n, p) for p in inc)
                        and not any(fnmatchcase(n, p) for p in exc)}

            def compare(got, vals, on, what):
                if not on:
                    check(got is None, '%s: %s recorded although switched off', r['kind'], what)
                    return
                want = chosen(vals)
                check(got is not None, '%s: %s not recorded', r['kind'], what)
                check(set(got) == set(want), '%s: %s of %s, expected %s', r['kind'], what, sorted(got), sorted(want))
                for n in want:
                    check(same(got[n], want[n]), '%s: %s %s read back as %r, was %r', r['kind'], what, n, got[n], want[n])

            if r['kind'] == 'mem':
                check(len(rec.iters) == len(mine), 'in-memory recorder has %d cases, recorded %d', len(rec.iters), len(mine))
                for data, (_, coord, vals, meta) in zip(rec.iters, mine):
                    check(data['iter'] == coord, 'in-memory case %s, expected %s', data['iter'], coord)
                    for key in ('timestamp', 'success', 'msg'):
                        check(data[key] == meta[key], 'in-memory %s %r, was %r', key, data[key], meta[key])
                    compare(data.get('params'), vals['p'], r['record_params'], 'params')
                    compare(data.get('unknowns'), vals['u'], r['record_unknowns'], 'unknowns')
                    compare(data.get('resids'), vals['r'], r['record_resids'], 'resids')
                want = all_derivs if r['record_derivs'] and 'driver' in r['where'] else []
                check(len(rec.deriv_iters) == len(want), 'in-memory recorder has %d derivatives, recorded %d',
                      len(rec.deriv_iters), len(want))
                for data, J in zip(rec.deriv_iters, want):
                    check(same(data['Derivatives'], J), 'in-memory derivatives %r, were %r', data['Derivatives'], J)
                log.label('mem')
                continue
            cr = CaseReader(path)
            ids = list(cr.list_cases())
            check(cr.num_cases == len(mine) and ids == [s[1] for s in mine], '%s: cases %s, recorded in this order: %s',
                  r['kind'], ids, [s[1] for s in mine])
            for j, (_, coord, vals, meta) in enumerate(mine):
                for case in (cr.get_case(j), cr.get_case(coord)):
                    check(case.case_id == coord, '%s: case %d is %s, expected %s', r['kind'], j, case.case_id, coord)
                    check(case.timestamp == meta['timestamp'], '%s: timestamp %r, was %r', r['kind'], case.timestamp,
                          meta['timestamp'])
                    check(case.success == meta['success'], '%s: success %r, was %r', r['kind'], case.success, meta['success'])
                    check(case.msg == meta['msg'], '%s: message %r, was %r', r['kind'], case.msg, meta['msg'])
                    compare(case.parameters, vals['p'], r['record_params'], 'parameters')
                    compare(case.unknowns, vals['u'], r['record_unknowns'], 'unknowns')
                    compare(case.resids, vals['r'], r['record_resids'], 'resids')
                    want = spied_derivs.get(coord) if r['record_derivs'] and 'driver' in r['where'] else None
                    if want is None:
                        check(case.derivs is None, '%s: derivatives %r of a case without', r['kind'], case.derivs)
                    else:
                        check(case.derivs is not None, '%s: the derivatives of %s are not read back', r['kind'], coord)
                        got = case.derivs
                        check(same(dicts(got), dicts(want[0])), '%s: derivatives %r, were %r', r['kind'], got, want[0])
                        log.label('derivatives')
                    if r['record_unknowns']:
                        for n in chosen(vals['u']):
                            check(same(case[n], vals['u'][n]), '%s: case[%r]', r['kind'], n)
            log.label(r['kind'])
            if len(mine) > 9:
                log.label('10 cases or more')
    log.nontrivial(len(spied) > 1)


def dicts(J):
    return {k: dict(v) for k, v in J.items()} if isinstance(J, dict) else J


# ------------------------------------------------------------------ text

@st.composite
def texts(draw):
    vs = []
    for i in range(draw(st.integers(1, 4))):
        if draw(st.integers(0, 3)) == 0:
            vs.append(dict(k='obj'))
        else:
            vs.append(dict(k='num', s=draw(st.sampled_from([0, [1], [3], [2, 2], [2, 1, 2]]))))
    runs = []
    for _ in range(draw(st.sampled_from([1, 2, 3]))):
        runs.append(dict(vals=draw(st.lists(VAL, min_size=4, max_size=4)), obj=[draw(OBJ)], succ=draw(st.integers(0, 2)) > 0,
                         msg=draw(st.sampled_from(['', 'x', 'a, "b"'])), it=draw(st.integers(1, 3)),
                         before=draw(st.integers(0, 3)) == 0, grad=draw(st.sampled_from([[], [], ['dict'], ['array']]))))
    o = dict((k, draw(st.booleans())) for k in ('record_params', 'record_resids', 'record_derivs'))
    o['record_unknowns'] = draw(st.integers(0, 4)) > 0
    o['includes'] = draw(st.sampled_from([None, None, ['*'], ['y*', 'x*'], ['*y0*', 'g.*']]))
    o['excludes'] = draw(st.sampled_from([None, None, ['x1'], ['*.z']]))
    return dict(kind=draw(st.sampled_from(['csv', 'dump'])), out=draw(st.sampled_from(['file', 'file', 'stream', 'none'])),
                where=draw(st.sampled_from(['driver', 'driver', 'g'])), vs=vs, runs=runs, seed=draw(st.integers(0, 99)), opts=o,
                resetup=draw(st.integers(0, 4)) == 0)


def run_text(spec, log):
    import csv
    import io
    from fnmatch import fnmatchcase
    from openmdao.api import Problem, Group, Component, IndepVarComp, NLGaussSeidel, Driver
    from openmdao.recorders.base_recorder import BaseRecorder
    from openmdao.recorders.csv_recorder import CsvRecorder
    from openmdao.recorders.dump_recorder import DumpRecorder
    from openmdao.util.record_util import create_local_meta, update_local_meta
    vs, o, kind = spec['vs'], spec['opts'], spec['kind']
    rng = np.random.RandomState(spec['seed'])

    def shaped(s, seq):
        v = np.resize(np.array(seq, dtype=float), nsize(s))
        return float(v[0]) if s == 0 else v.reshape(s)

    class Work(Component):
        def __init__(self):
            super(Work, self).__init__()
            self.count = 0
            for i, v in enumerate(vs):
                if v['k'] == 'num':
                    self.add_param('x%d' % i, shaped(v['s'], [0.0]))
                    self.add_output('y%d' % i, shaped(v['s'], [0.0]))
                else:
                    self.add_param('x%d' % i, [], pass_by_obj=True)
                    self.add_output('y%d' % i, [], pass_by_obj=True)

        def solve_nonlinear(self, params, unknowns, resids):
            self.count += 1
            for i, v in enumerate(vs):
                x = params['x%d' % i]
                unknowns['y%d' % i] = x * 1.1 + self.count / 7. if v['k'] == 'num' else [self.count, copy.deepcopy(x)]

        def linearize(self, params, unknowns, resids):
            return {('y%d' % i, 'x%d' % i): np.eye(nsize(v['s'])) * (1.0 / 3 + self.count)
                    for i, v in enumerate(vs) if v['k'] == 'num'}

    events = []

    class Drv(Driver):
        def run(self, problem):
            op = self.op
            self.iter_count += 1
            meta = self.metadata = create_local_meta(None, 'Driver')
            update_local_meta(meta, (self.iter_count,))
            meta['success'], meta['msg'] = (1 if op['succ'] else 0), op['msg']
            self._problem = problem
            outs = ['g.w.y%d' % i for i, v in enumerate(vs) if v['k'] == 'num']
            ins = ['x%d' % i for i, v in enumerate(vs) if v['k'] == 'num']
            self.root.solve_nonlinear(metadata=meta)
            if not op['before']:
                self.recorders.record_iteration(self.root, meta)
            for fmt in op['grad'] if ins else ():
                self.calc_gradient(ins, outs, return_format=fmt)
            if op['before']:
                # e.g. the derivatives of linear constraints
                self.recorders.record_iteration(self.root, meta)
            self._problem = None

    class Spy(BaseRecorder):
        def record_metadata(self, group):
            pass

        def record_iteration(self, params, unknowns, resids, metadata):
            g = root if spec['where'] == 'driver' else root.g
            events.append(('iter', [{n: copy.deepcopy(vec[n]) for n in vec} for vec in (g.params, g.unknowns, g.resids)], dict(metadata)))

        def record_derivatives(self, derivs, metadata):
            events.append(('deriv', copy.deepcopy(derivs), dict(metadata)))

    prob = Problem(root=Group(), driver=Drv())
    root = prob.root
    for i, v in enumerate(vs):
        if v['k'] == 'num':
            root.add('p%d' % i, IndepVarComp('x%d' % i, shaped(v['s'], [0.0])), promotes=['*'])
        else:
            root.add('p%d' % i, IndepVarComp('x%d' % i, [], pass_by_obj=True), promotes=['*'])
        root.connect('x%d' % i, 'g.w.x%d' % i)
    g = root.add('g', Group())
    g.add('w', Work())
    g.nl_solver = NLGaussSeidel()
    g.nl_solver.options['atol'] = g.nl_solver.options['rtol'] = 1e-30
    with Scratch():
        stream = None
        out = 'out.txt'
        if spec['out'] == 'stream':
            out = stream = io.StringIO()
        elif spec['out'] == 'none' and kind == 'dump':
            out = None      # "If out is None, cases will be ignored."
        rec = (CsvRecorder if kind == 'csv' else DumpRecorder)(out)
        for k, v in o.items():
            if v is not None:
                rec.options[k] = v
        if stream is not None:
            rec.options['record_metadata'] = False
        holder = prob.driver if spec['where'] == 'driver' else g.nl_solver
        holder.add_recorder(rec)
        spy = Spy()
        holder.add_recorder(spy)
        prob.setup(check=False)
        if spec['resetup']:
            prob.setup(check=False)
        start = None
        for op in spec['runs']:
            for i, v in enumerate(vs):
                prob['x%d' % i] = shaped(v['s'], rng.permutation(op['vals'])) if v['k'] == 'num' else copy.deepcopy(op['obj'])
            g.nl_solver.options['maxiter'] = op['it']
            prob.driver.op = op
            with np.errstate(all='ignore'):
                prob.run()
        if out is None:
            log.label('ignored')
            prob.cleanup()
            return
        text = stream.getvalue() if stream is not None else None
        prob.cleanup()
        if text is None:
            with open('out.txt', newline='') as f:
                text = f.read()
    first = [e for e in events if e[0] == 'iter'][0]
    sel = lambda n: any(fnmatchcase(n, p) for p in o['includes'] or ['*']) and not any(fnmatchcase(n, p) for p in o['excludes'] or [])
    parts = [(j, key, sorted(n for n in first[1][j] if sel(n))) for j, key in enumerate(['record_params', 'record_unknowns', 'record_resids']) if o[key]]
    events = [e for e in events if e[0] == 'iter' or o['record_derivs']]
    if kind == 'csv':
        rows = list(csv.reader(io.StringIO(text, newline='')))
        head = rows.pop(0)
        width = 1 + sum(len(ns) for _, _, ns in parts) + bool(o['record_derivs'])
        check(len(head) == width and head[0] == 'success' and (not o['record_derivs'] or head[-1] == 'Derivatives'), 'header of the csv file is %r', head)
        pos, cols = 1, []
        for j, key, ns in parts:
            check(sorted(head[pos:pos + len(ns)]) == ns, 'columns of %s are %r, selected are %r', key, head[pos:pos + len(ns)], ns)
            cols += [(pos + i, j, n) for i, n in enumerate(head[pos:pos + len(ns)])]
            pos += len(ns)
        check(len(rows) == len(events), '%d rows for %d records', len(rows), len(events))
        for row, (what, data, meta) in zip(rows, events):
            check(len(row) == width, 'row %r for the header %r', row, head)
            check(row[0] == str(meta['success']), 'success flag %r, it was %r', row[0], meta['success'])
            if what == 'deriv':
                check(all(c == '' for c in row[1:-1]), 'derivatives lie in the row %r', row)
                J = eval(row[-1], dict(array=np.array, np=np, OrderedDict=dict, nan=np.nan, inf=np.inf))
                check(isinstance(J, list) and len(J) == 1, 'derivatives are written as %r', row[-1])
                ders = [J[0]], [data]
                if isinstance(data, dict):
                    check(set(J[0]) == set(data) and all(set(J[0][k]) == set(data[k]) for k in data), 'derivatives are written as %r', row[-1])
                    ders = [[d[k][n] for k in sorted(data) for n in sorted(data[k])] for d in (J[0], data)]
                for a, b in zip(*ders):
                    check(np.shape(a) == np.shape(b) and np.allclose(a, b, 1e-7, 0), 'derivatives %r were written as %r', b, a)
                log.label('csv derivatives')
                continue
            if o['record_derivs']:
                check(row[-1] == '', 'derivatives of an iteration: %r', row[-1])
            for c, j, n in cols:
                v = data[j][n]
                if isinstance(v, (float, np.ndarray)):
                    try:
                        w = [float(x) for x in row[c].split(',')]
                    except ValueError:
                        w = None
                    check(w is not None and np.array_equal(np.array(w), np.ravel(v), equal_nan=True), '%s was %r, and %r was written', n, v, row[c])
                else:
                    check(row[c] == str(v), '%s was %r, and %r was written', n, v, row[c])
        log.label('csv ' + spec['out'])
    else:
        if 'Timestamp' in text:
            text = text[text.index('Timestamp: '):]
        want = ''
        for what, data, meta in events:
            c = meta['coord']
            path = '|'.join('%s|%s' % (c[i], '-'.join(str(x) for x in c[i + 1])) for i in range(1, len(c), 2))
            want += 'Timestamp: %r\nIteration Coordinate: rank0:%s%s\n' % (meta['timestamp'], path, '/Derivs' if what == 'deriv' else '')
            want += 'Iteration succeeded: %s\n' % ('yes' if meta['success'] else 'no')
            if not meta['success']:
                want += 'Error msg: %s\n' % meta['msg']
            if what == 'deriv':
                want += 'Derivatives:\n'
                if isinstance(data, dict):
                    want += ''.join('  %s wrt %s: %s\n' % (k, n, data[k][n]) for k in sorted(data) for n in sorted(data[k]))
                else:
                    want += '  %s \n' % data
            else:
                for j, key, ns in parts:
                    want += {0: 'Params', 1: 'Unknowns', 2: 'Resids'}[j] + ':\n' + ''.join('  %s: %s\n' % (n, data[j][n]) for n in ns)
        for a, b in zip(text.split('\n'), want.split('\n')):
            check(a == b, 'the dump has %r, expected %r', a, b)
        check(text == want, 'the dump has %r, expected %r', text[-200:], want[-200:])
        log.label('dump ' + spec['out'])
    log.nontrivial(len(events) > 1)


FACETS = [
    Facet('roundtrip', cases, run, 250, rule='at least two recorded iterations'),
    Facet('text', texts, run_text, 250, rule='at least two records'),
]
