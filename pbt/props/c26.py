"""C26: named, flat and nested views of a system's vectors agree."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt.core import Facet, check, check_close

ASSUMPTIONS = ['serial execution (no MPI)', 'values written are NumPy arrays or numbers for scalars; they are stored in row-major order, and one value fills an array',
               'values of inputs are stored in the units of their source and converted when read; they may be read as copies']

SHAPES = [[], [], [1], [3], [4], [2, 2], [2, 3], [3, 1], [1, 2], [2, 1, 2], [0]]
UNITS = {'cm': (100.0, 0.0), 'm': (1.0, 0.0), 'km': (0.001, 0.0), 'degC': (1.0, 0.0), 'degF': (1.8, 32.0 / 1.8), 'degK': (1.0, 273.15)}
FAMILY = {'cm': 'm', 'm': 'm', 'km': 'm', 'degC': 't', 'degF': 't', 'degK': 't'}
OBJECTS = ['text', 'list', 'dict', 'array', 'none']


@st.composite
def variable(draw):
    pbo = draw(st.integers(0, 5)) == 0
    return dict(s=draw(st.sampled_from(SHAPES)), pbo=draw(st.sampled_from(OBJECTS)) if pbo else None, u=draw(st.sampled_from([None, None, None] + sorted(UNITS))), state=draw(st.integers(0, 5)) == 0)


@st.composite
def operation(draw):
    return dict(op=draw(st.sampled_from(['name', 'name', 'name', 'flat', 'flat', 'slice', 'scale', 'inplace', 'inplace', 'wrong', 'prob', 'object', 'run', 'gradient', 'copyread', 'setup'])),
                sys=draw(st.integers(0, 99)), kind=draw(st.sampled_from(['unknowns', 'unknowns', 'resids', 'params', 'params', 'dumat', 'drmat', 'dpmat'])), voi=draw(st.integers(0, 9)), var=draw(st.integers(0, 99)), idx=draw(st.integers(0, 99)),
                how=draw(st.sampled_from(['array', 'array', 'fortran', 'strided', 'int', 'flat', 'one', 'column', 'single', 'bool'])), seed=draw(st.integers(0, 999)))


@st.composite
def trees(draw):
    ncomp = draw(st.integers(1, 5))
    comps = []
    for k in range(ncomp):
        ins = []
        for _ in range(draw(st.integers(0, 3))):
            ins.append(dict(v=draw(variable()), src=draw(st.one_of(st.none(), st.integers(0, 99), st.integers(0, 99), st.integers(0, 99)))))
        outs = [draw(variable()) for _ in range(draw(st.integers(1, 3)))]
        if k == 0 or draw(st.integers(0, 3)) == 0:
            # an IndepVarComp
            ins, outs = [], [dict(v, pbo=None, state=False) for v in outs]
        comps.append(dict(outs=outs, ins=ins, place=draw(st.lists(st.integers(0, 1), max_size=3)), promo=draw(st.sampled_from(['none', 'all', 'all', 'outs'])), up=draw(st.integers(0, 3))))
    return dict(comps=comps, parallel=draw(st.booleans()), cs=draw(st.booleans()), petsc=draw(st.sampled_from([False, False, False, True])), voi=draw(st.booleans()), rev=draw(st.booleans()), solver=draw(st.sampled_from(['gmres', 'lings', 'direct'])),
                ops=draw(st.lists(operation(), min_size=3, max_size=14)))


def start_object(kind, k):
    return {'text': 'text %d' % k, 'list': [k, 'a'], 'dict': {'k': k}, 'array': np.arange(3.0) + k, 'none': None}[kind]


def start_value(v, k):
    if v['pbo']:
        return start_object(v['pbo'], k)
    if not v['s']:
        return 1.0 + k
    return np.arange(int(np.prod(v['s'])), dtype=float).reshape(v['s']) + k


class Tree(object):
    def __init__(self, spec):
        self.spec = spec
        self.outs, self.ins = {}, {}        # absolute name -> variable
        self.src = {}                       # absolute input -> absolute output
        self.comp = {}                      # absolute name -> component path
        self.prom = {}                      # (system path, absolute name) -> name there
        self.paths = set([''])
        n = 0
        sizes = {}
        known = []
        for c, comp in enumerate(spec['comps']):
            groups = []
            for d, j in enumerate(comp['place']):
                groups.append('g%d%d' % (d, j))
            path = '.'.join(groups + ['c%d' % c])
            for k in range(len(groups) + 1):
                self.paths.add('.'.join(groups[:k]))
            self.paths.add(path)
            for k, v in enumerate(comp['outs']):
                name = '%s.o%d_%d' % (path, c, k)
                self.outs[name] = v
                self.comp[name] = path
                known.append(name)
            for k, i in enumerate(comp['ins']):
                v = i['v']
                name = '%s.i%d_%d' % (path, c, k)
                if i['src'] is not None:
                    cand = [o for o in known if self.comp[o] != path]
                    if cand:
                        src = cand[i['src'] % len(cand)]
                        s = self.outs[src]
                        v = dict(v, s=list(s['s']), pbo=s['pbo'])
                        if s['u'] is None:
                            v['u'] = None
                        elif v['u'] and FAMILY[v['u']] != FAMILY[s['u']]:
                            v['u'] = s['u']
                        self.src[name] = src
                self.ins[name] = v
                self.comp[name] = path
        for name, path in self.comp.items():
            comp = spec['comps'][int(path.rpartition('.')[2][1:])]
            parts = path.split('.')
            local = name.rpartition('.')[2]
            self.prom[path, name] = local
            climb = comp['up'] if comp['promo'] == 'all' or comp['promo'] == 'outs' and name in self.outs else 0
            cur = local
            for k in range(len(parts) - 1, -1, -1):
                if climb > len(parts) - 1 - k:
                    pass                      # promoted from parts[k]
                else:
                    cur = parts[k] + '.' + cur
                self.prom['.'.join(parts[:k]), name] = cur

    def independent(self, path):
        c = self.spec['comps'][int(path.rpartition('.')[2][1:])]
        return not c['ins'] and not any(v['pbo'] or v['state'] for v in c['outs'])

    def owner(self, name):
        """The innermost group that contains source and target."""
        a, b = self.comp[name].split('.'), self.comp[self.src[name]].split('.')
        k = 0
        while k < min(len(a), len(b)) and a[k] == b[k]:
            k += 1
        return '.'.join(a[:k])

    def conv(self, name):
        """Conversion (scale, offset) applied when the input is read."""
        v = self.ins[name]
        s = self.outs[self.src[name]] if name in self.src else None
        if s is None or not s['u'] or not v['u'] or s['u'] == v['u'] or v['pbo']:
            return None
        return s['u'], v['u']

    def build(self):
        from openmdao.api import Component, DirectSolver, Group, IndepVarComp, LinearGaussSeidel, ParallelGroup, Problem, ScipyGMRES
        tree = self

        class Node(Component):
            def __init__(self, path):
                super(Node, self).__init__()
                self.mine = path
                for n, v in tree.outs.items():
                    if tree.comp[n] == path:
                        kw = {'pass_by_obj': True} if v['pbo'] else {}
                        if v['u'] and not v['pbo']:
                            kw['units'] = v['u']
                        add = self.add_state if v['state'] and not v['pbo'] else self.add_output
                        add(n.rpartition('.')[2], start_value(v, 1), **kw)
                for n, v in tree.ins.items():
                    if tree.comp[n] == path:
                        kw = {'pass_by_obj': True} if v['pbo'] else {}
                        if v['u'] and not v['pbo']:
                            kw['units'] = v['u']
                        self.add_param(n.rpartition('.')[2], start_value(v, 2), **kw)

            def look(self, params, unknowns):
                for vec, table in ((params, tree.ins), (unknowns, tree.outs)):
                    for n, v in table.items():
                        if tree.comp[n] == self.mine and not v['pbo']:
                            got = vec[n.rpartition('.')[2]]
                            check(np.shape(got) == tuple(v['s']), '%s has shape %s inside of its component, not %s', n, np.shape(got), tuple(v['s']))

            def solve_nonlinear(self, params, unknowns, resids):
                self.look(params, unknowns)
                total = 0.0
                for n in params.keys():
                    if not tree.ins[self.mine + '.' + n]['pbo']:
                        total = total + np.sum(params[n])
                for n in unknowns.keys():
                    v = tree.outs[self.mine + '.' + n]
                    if v['pbo']:
                        continue
                    unknowns[n] = unknowns[n] * 0 + total + 0.5 if v['s'] else total + 0.25

            def apply_nonlinear(self, params, unknowns, resids):
                self.look(params, unknowns)
                for n in resids.keys():
                    if not tree.outs[self.mine + '.' + n]['pbo']:
                        resids[n] = unknowns[n] * 1.0

            def linearize(self, params, unknowns, resids):
                self.look(params, unknowns)
                J = {}
                for o in unknowns.keys():
                    v = tree.outs[self.mine + '.' + o]
                    if v['pbo']:
                        continue
                    m = max(1, int(np.prod(v['s']))) if 0 not in v['s'] else 0
                    for i in params.keys():
                        w = tree.ins[self.mine + '.' + i]
                        if not w['pbo']:
                            k = max(1, int(np.prod(w['s']))) if 0 not in w['s'] else 0
                            J[o, i] = np.ones((m, k))
                    if v['state']:
                        J[o, o] = np.eye(m)
                return J
        def fixed(path):
            given = []
            for n, v in tree.outs.items():
                if tree.comp[n] == path:
                    kw = {'units': v['u']} if v['u'] else {}
                    given.append((n.rpartition('.')[2], start_value(v, 1), kw))
            return IndepVarComp(given)

        prob = Problem(root=Group())
        if self.spec['petsc']:
            from openmdao.core.petsc_impl import PetscImpl
            prob = Problem(root=Group(), impl=PetscImpl)
        made = {'': prob.root}

        for path in sorted(self.paths, key=lambda p: (p.count('.') if p else -1, p)):
            if not path:
                continue
            above, _, name = path.rpartition('.')
            promotes = None
            depth = path.count('.') + 1
            # everything that climbs from here
            promotes = sorted(set(self.prom[path, n] for (p, n), _ in self.prom.items() if p == path and self.prom[above, n] == self.prom[path, n]))
            if name.startswith('g'):
                sub = (ParallelGroup if self.spec['parallel'] and depth == 1 else Group)()
            else:
                sub = fixed(path) if self.independent(path) else Node(path)
            made[path] = made[above].add(name, sub, promotes=promotes or None)
        for n, s in self.src.items():
            a, b = self.prom['', s], self.prom['', n]
            if a != b:
                prob.root.connect(a, b)
        solver = {'gmres': ScipyGMRES, 'direct': DirectSolver, 'lings': LinearGaussSeidel}[self.spec['solver']]
        for g in prob.root.subgroups(recurse=True, include_self=True):
            g.ln_solver = ScipyGMRES() if not g.pathname and self.spec['solver'] == 'lings' and False else solver()
            if self.spec['solver'] == 'lings':
                g.ln_solver.options['maxiter'] = 3
        if self.spec['cs']:
            prob.root.deriv_options['type'] = 'cs'
        return prob


KINDS = ['unknowns', 'resids', 'params', 'dumat', 'drmat', 'dpmat']


def vectors(prob):
    """(system, kind, voi, vector)"""
    for s in prob.root.subsystems(recurse=True, include_self=True):
        for kind in KINDS:
            v = getattr(s, kind)
            if kind.endswith('mat'):
                # a model that is differentiated as a whole has no storage for derivatives
                # vectors for variables of interest that are not solved at the same time share their storage
                together = [x for x in getattr(prob, 'together', []) if x in prob.root.dumat] or [None]
                for voi in together if prob.root.deriv_options['type'] == 'user' else []:
                    yield s, kind, voi, v[voi]
            else:
                yield s, kind, None, v


def convert(tree, name, raw):
    """The value of an input as read, from the stored one."""
    pair = tree.conv(name)
    if pair is None:
        return raw
    a, b = pair
    return to_units(from_units(raw, a), b)


def from_units(x, u):
    return {'cm': lambda: x / 100.0, 'm': lambda: x * 1.0, 'km': lambda: x * 1000.0, 'degC': lambda: x + 273.15, 'degF': lambda: (x + 459.67) / 1.8, 'degK': lambda: x * 1.0}[u]()


def to_units(x, u):
    return {'cm': lambda: x * 100.0, 'm': lambda: x * 1.0, 'km': lambda: x / 1000.0, 'degC': lambda: x - 273.15, 'degF': lambda: x * 1.8 - 459.67, 'degK': lambda: x * 1.0}[u]()


class Store(object):
    """What every variable of every kind of vector holds."""

    def __init__(self, tree, prob):
        self.tree, self.prob = tree, prob
        self.data = {}
        self.refresh()

    def refresh(self):
        """Take over the values of the components' own views (after the model has been at work)."""
        self.data = {}
        for s, kind, voi, vec in vectors(self.prob):
            if isinstance_component(s):
                for n in vec.keys():
                    name = vec.metadata(n)['pathname']
                    if self.by_object(kind, name):
                        continue
                    if kind == 'params' and self.tree.conv(name):
                        continue
                    self.data[kind, voi, name] = np.array(vec[n], dtype=float).flatten()
        # inputs with a unit conversion: as stored by their owner
        for s, kind, voi, vec in vectors(self.prob):
            if kind == 'params':
                for name, (a, b) in self.slots(s, kind, voi, vec):
                    if self.tree.conv(name):
                        self.data[kind, voi, name] = np.array(vec.vec[a:b])

    def by_object(self, kind, name):
        t = self.tree
        if kind in ('params', 'dpmat'):
            return bool(t.ins[name]['pbo'])
        return bool(t.outs[name]['pbo'])

    def slots(self, s, kind, voi, vec):
        """[(absolute name, (start, end))] of the flat array, from the listed order and the sizes."""
        t, out, pos = self.tree, [], 0
        for n in vec.keys():
            name = vec.metadata(n)['pathname']
            if self.by_object(kind, name):
                continue
            if kind in ('params', 'dpmat'):
                if name not in t.src or t.owner(name) != s.pathname:
                    continue
                shape = t.ins[name]['s']
            else:
                shape = t.outs[name]['s']
            size = int(np.prod(shape)) if shape else 1
            out.append((name, (pos, pos + size)))
            pos += size
        return out

    def verify(self, what):
        t = self.tree
        for s, kind, voi, vec in vectors(self.prob):
            where = '%s%s of %r%s: ' % (what, kind, s.pathname, '' if voi is None else ' for ' + str(voi))
            target = kind in ('params', 'dpmat')
            table = t.ins if target else t.outs
            names = [vec.metadata(n)['pathname'] for n in vec.keys()]
            check(len(set(names)) == len(names) or target, '%snames listed twice: %s', where, names)
            for n, name in zip(vec.keys(), names):
                check(name in table and (s.pathname, name) in t.prom, '%slists %s', where, name)
            if kind in ('unknowns', 'resids'):
                inside = [n for n in t.outs if (s.pathname, n) in t.prom]
                check(sorted(names) == sorted(inside), '%slists %s, not %s', where, sorted(names), sorted(inside))
            if kind == 'params' and isinstance_component(s):
                inside = [n for n in t.ins if t.comp[n] == s.pathname]
                check(sorted(names) == sorted(inside), '%slists %s, not %s', where, sorted(names), sorted(inside))
            check(len(vec) == len(names) and list(vec) == list(vec.keys()) and [k for k, _ in vec.items()] == list(vec.keys()), '%slengths, iteration and keys differ', where)
            flat = []
            for n, name in zip(vec.keys(), names):
                check(n in vec, '%s%s is listed but not contained', where, n)
                if not target:
                    check(n == t.prom[s.pathname, name], '%s%s is called %s, not %s', where, name, n, t.prom[s.pathname, name])
                if self.by_object(kind, name):
                    continue
                want = self.data[kind, voi, name]
                shape = tuple(table[name]['s'])
                if kind == 'params':
                    want = convert(t, name, want)
                got = vec[n]
                check(np.shape(got) == shape, '%s%s has shape %s, not %s', where, n, np.shape(got), shape)
                conv = t.conv(name) if kind == 'params' else None
                check_close(np.reshape(got, -1), want, where + n, 1e-8 if conv else 0, 1e-7 if conv else 0)
            slots = self.slots(s, kind, voi, vec)
            size = slots[-1][1][1] if slots else 0
            check(vec.vec.shape == (size,), '%sflat array has shape %s, its variables have %d entries', where, vec.vec.shape, size)
            whole = np.concatenate([self.data[kind, voi, name] for name, _ in slots]) if slots else np.zeros(0)
            check_close(vec.vec, whole, where + 'flat array', 0, 0)
            check_close(vec.norm(), np.sqrt(np.sum(whole ** 2)), where + 'norm', 1e-12, 0)
            listed = [n for n, name in zip(vec.keys(), names) if not self.by_object(kind, name)]
            seen = list(vec.vec_val_iter())
            if kind != 'params':
                check([n for n, _ in seen] == [n for n in listed if not target or vec.metadata(n)['pathname'] in t.src], '%svec_val_iter visits %s, not %s', where, [n for n, _ in seen], listed)
            for n, val in seen:
                check_close(val, self.data[kind, voi, vec.metadata(n)['pathname']], where + 'vec_val_iter ' + n, 0, 0)
            for bad in ('no_such', 'no.such'):
                check(bad not in vec, '%s%s is contained', where, bad)
                try:
                    vec[bad]
                except KeyError:
                    pass
                else:
                    check(False, '%s%s can be read', where, bad)


def isinstance_component(s):
    from openmdao.api import Component
    return isinstance(s, Component)


def new_value(shape, how, seed):
    r = np.random.RandomState(seed)
    size = int(np.prod(shape)) if shape else 1
    base = np.round(r.uniform(-9, 9, size), 3)
    if not shape:
        x = float(base[0])
        return {'int': int(x), 'one': np.array([x]), 'single': np.float32(x), 'bool': True, 'flat': np.array(x)}.get(how, x)
    a = base.reshape(shape)
    if how == 'fortran':
        return np.asfortranarray(a)
    if how == 'strided':
        return np.repeat(a, 2, axis=0)[::2]
    if how == 'int':
        return a.astype(int)
    if how == 'flat':
        return base
    if how == 'one':
        return np.array([base[0]]) if size else a
    if how == 'column':
        return base.reshape(-1, 1)
    if how == 'single':
        return a.astype(np.float32)
    if how == 'bool':
        return a > 0
    return a


def stored(value, size):
    v = np.asarray(value, dtype=float).flatten()
    return np.ones(size) * v if v.size == 1 and size != 1 else v


def run_ops(spec, log):
    tree = Tree(spec)
    prob = tree.build()
    if spec['voi']:
        reals = [n for n, v in tree.outs.items() if not v['pbo'] and not v['state'] and 0 not in v['s']]
        feed = [n for n in reals if n in tree.src.values() and tree.independent(tree.comp[n])]
        if feed:
            ends = [n for n in reals if n not in feed[:3]][-3:] or [reals[-1]]
            for n in feed[:3]:
                prob.driver.add_desvar(tree.prom['', n])
            prob.driver.add_objective(tree.prom['', ends[0]])
            for n in ends[1:]:
                prob.driver.add_constraint(tree.prom['', n], upper=1e6)
            names = [tree.prom['', n] for n in (ends if spec['rev'] and ends[0] not in feed[:3] else feed[:3])]
            prob.root.ln_solver.options['mode'] = 'rev' if spec['rev'] else 'fwd'
            prob.driver.parallel_derivs(names)
            groups = prob.driver.outputs_of_interest() if names == [tree.prom['', n] for n in ends] else prob.driver.desvars_of_interest()
            prob.together = max(groups, key=len)
            names = prob.together
            log.label('%d vectors of interest' % len(names))
    prob.setup(check=False)
    store = Store(tree, prob)
    store.verify('after setup: ')
    for n, v in list(tree.outs.items()) + list(tree.ins.items()):
        if v['pbo'] or n in tree.src:
            continue
        check_close(prob[tree.prom['', n] if n in tree.outs else tree.prom['', n]], start_value(v, 1 if n in tree.outs else 2), 'after setup: ' + n, 0, 0)
    seen = 0
    for k, o in enumerate(spec['ops']):
        what = 'operation %d (%s): ' % (k, o['op'])
        seen += perform(tree, prob, store, o, what, log)
        store.verify(what)
    deep = max(len(c['place']) for c in spec['comps'])
    log.label('depth %d' % deep)
    log.nontrivial(seen >= 2 and deep >= 1)


def perform(tree, prob, store, o, what, log):
    op = o['op']
    if op == 'setup':
        prob.setup(check=False)
        store.refresh()
        return 0
    if op == 'run':
        prob.run()
        store.refresh()
        for name, src in tree.src.items():
            v = tree.ins[name]
            s = prob.root
            for part in tree.comp[name].split('.'):
                s = s.find_subsystem(part)
            got = s.params[name.rpartition('.')[2]]
            if v['pbo']:
                same = got is prob[tree.prom['', src]] or np.array_equal(got, prob[tree.prom['', src]])
                check(same, '%s%s is %r, its source %r', what, name, got, prob[tree.prom['', src]])
        log.label('run')
        return 0
    if op == 'gradient':
        cand = [n for n, v in tree.outs.items() if not v['pbo'] and 0 not in v['s']]
        src = [n for n in cand if n in tree.src.values() and tree.independent(tree.comp[n])]
        if not src or store.prob.root.deriv_options['type'] == 'cs':
            return 0
        try:
            prob.calc_gradient([tree.prom['', src[o['var'] % len(src)]]], [tree.prom['', cand[o['idx'] % len(cand)]]], mode=['fwd', 'rev'][o['seed'] % 2])
        except (RuntimeError, KeyError):
            # not an independent variable, or singular: not the business of this property
            pass
        store.refresh()
        log.label('gradient')
        return 0
    if op == 'object':
        cand = [(s, n, vec) for s, kind, voi, vec in vectors(prob) if kind == 'unknowns' for n in vec.keys() if tree.outs[vec.metadata(n)['pathname']]['pbo']]
        if not cand:
            return 0
        s, n, vec = cand[(o['sys'] * 7 + o['var']) % len(cand)]
        name = vec.metadata(n)['pathname']
        new = start_object(tree.outs[name]['pbo'], 50 + o['seed'])
        if o['idx'] % 2:
            prob[tree.prom['', name]] = new
        else:
            vec[n] = new
        for s2, n2, vec2 in cand:
            got = vec2[n2]
            if vec2.metadata(n2)['pathname'] == name:
                check(got is new, '%s%s is %r in %r, %r was written in %r', what, n2, got, s2.pathname, new, s.pathname)
            else:
                check(got is not new or new is None, '%s%s became %r too', what, n2, new)
        check(prob[tree.prom['', name]] is new, '%sprob[%s] is %r', what, tree.prom['', name], prob[tree.prom['', name]])
        log.label('object')
        return 1
    if op == 'prob':
        cand = [n for n, v in tree.outs.items() if not v['pbo']] + [n for n, v in tree.ins.items() if n not in tree.src and not v['pbo']]
        if not cand:
            return 0
        name = cand[o['var'] % len(cand)]
        target = name in tree.ins
        v = (tree.ins if target else tree.outs)[name]
        val = new_value(v['s'], o['how'] if name not in tree.ins else 'array', o['seed'])
        size = int(np.prod(v['s'])) if v['s'] else 1
        shown = tree.prom['', name]
        prob[shown] = val
        store.data['params' if target else 'unknowns', None, name] = stored(val, size)
        check_close(np.reshape(prob[shown], -1), stored(val, size), what + shown, 0, 0)
        check(np.shape(prob[shown]) == tuple(v['s']), '%sprob[%s] has shape %s, not %s', what, shown, np.shape(prob[shown]), tuple(v['s']))
        log.label('through the problem')
        return 1
    # the rest works on one vector
    cand = [(s, kind, voi, vec) for s, kind, voi, vec in vectors(prob) if kind == o['kind']]
    cand = [c for c in cand if any(not store.by_object(c[1], c[3].metadata(n)['pathname']) for n in c[3].keys())]
    if not cand:
        return 0
    s, kind, voi, vec = cand[(o['sys'] + 31 * o['voi']) % len(cand)]
    target = kind in ('params', 'dpmat')
    names = [n for n in vec.keys() if not store.by_object(kind, vec.metadata(n)['pathname'])]
    n = names[o['var'] % len(names)]
    name = vec.metadata(n)['pathname']
    v = (tree.ins if target else tree.outs)[name]
    size = int(np.prod(v['s'])) if v['s'] else 1
    if kind == 'dpmat' and name not in tree.src:
        return 0
    held = kind == 'params' and name not in tree.src          # inputs without a source hold the object they are given
    if op == 'name':
        val = new_value(v['s'], 'array' if held else o['how'], o['seed'])
        keep = copy.deepcopy(val)
        vec[n] = val
        check(np.array_equal(np.asarray(keep), np.asarray(val)), '%sthe written value was changed', what)
        store.data[kind, voi, name] = stored(val, size)
        if isinstance(val, np.ndarray) and val.size and not held:
            val[...] = 0          # must not be kept
    elif op == 'wrong':
        if held:
            return 0
        old = store.data[kind, voi, name].copy()
        if v['s']:
            bad = np.arange(float(size + 1 + o['idx'] % 3)) if o['seed'] % 2 or size < 3 else np.arange(float(size - 1))
        else:
            bad = np.arange(2.0)
        if bad.size == 1 or bad.size == size:
            return 0
        try:
            vec[n] = bad
        except (ValueError, TypeError):
            pass
        else:
            check(False, '%s%d values were accepted for %s of size %d', what, bad.size, n, size)
        store.data[kind, voi, name] = old
        log.label('refused')
    elif op in ('flat', 'slice', 'scale'):
        slots = store.slots(s, kind, voi, vec)
        total = slots[-1][1][1] if slots else 0
        if not total:
            return 0
        if op == 'flat':
            i = o['idx'] % total
            vec.vec[i] = x = o['seed'] / 8.0 - 9
            for name, (a, b) in slots:
                if a <= i < b:
                    store.data[kind, voi, name][i - a] = x
        else:
            new = np.round(np.random.RandomState(o['seed']).uniform(-9, 9, total), 2)
            if op == 'slice':
                vec.vec[:] = new
            else:
                new = vec.vec * 2.0 + new
                vec.vec *= 2.0
                vec.vec += new - vec.vec
                new = vec.vec.copy()
            for name, (a, b) in slots:
                store.data[kind, voi, name] = new[a:b].copy()
    elif op in ('inplace', 'copyread'):
        got = vec[n]
        if not v['s'] or not size:
            return 0
        if kind == 'params' and tree.conv(name):
            if isinstance(got, np.ndarray):
                got[...] = -77.0          # a converted copy
            return 1
        if kind == 'params' and name not in tree.src and v['pbo']:
            return 0
        if op == 'copyread':
            got = got.copy()
            got[...] = -5.0
        else:
            idx = np.unravel_index(o['idx'] % size, v['s'])
            got[idx] = x = o['seed'] / 4.0 - 3
            store.data[kind, voi, name][o['idx'] % size] = x
    log.label(op + ':' + kind)
    return 1


FACETS = [
    Facet('views', trees, run_ops, 300, rule='histories of writes on one hierarchy; non-trivial: at least two writes and a nested component'),
]
