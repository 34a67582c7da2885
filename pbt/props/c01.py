"""C01 data flow."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Facet, check, check_close
from pbt.models import Model, gen_model, full, VALS

ASSUMPTIONS = ['serial execution (no MPI)', 'values agree to 1e-9 relative']


def impl_of(name):
    if name == 'petsc':
        from openmdao.core.petsc_impl import PetscImpl
        return PetscImpl
    return None


def new_inputs(m, k):
    """A second set of inputs, derived from the first."""
    out = {}
    for key, v in m.input_defaults().items():
        out[key] = v * (1.0 - 0.25 * k) + 0.375 * k + 0.125 * np.arange(len(v)) * k
    return out


def labels(m, log):
    if len(m.groups) > 1:
        log.label('nested')
    for c in m.comps:
        for p in c['ins']:
            log.label('via:' + p['via'])
            if p['idx'] is not None:
                log.label('src_indices:' + p.get('on', '?'))
                if len(set(p['idx'])) < len(p['idx']):
                    log.label('repeated src_indices')
            if p['src'] and p['u'] and m.out(p['src'])['u'] and p['u'] != m.out(p['src'])['u']:
                log.label('unit conversion')
                if p['u'].startswith('deg'):
                    log.label('offset units')
                if p['idx'] is not None:
                    log.label('unit conversion + src_indices')
            if p.get('noshape'):
                log.label('shape from source')
    n_conn = sum(1 for c in m.comps for p in c['ins'] if p['src'])
    return n_conn


@st.composite
def acyclic(draw):
    spec = draw(gen_model(max_comps=8, kinds=('lin', 'exec', 'mf'), impl=15))
    return dict(model=spec, impl=draw(st.sampled_from(['basic', 'basic', 'basic', 'petsc'])),
                k=draw(st.integers(1, 3)))


def run_acyclic(spec, log):
    m = Model(spec['model'])
    n_conn = labels(m, log)
    log.label('impl:' + spec['impl'])
    log.nontrivial(n_conn >= 2 and len(m.comps) >= 3)
    prob = m.build(impl=impl_of(spec['impl']))
    inputs = m.input_defaults()
    prob.run()
    m.check_values(prob, m.ref_values(inputs), inputs)
    inputs = new_inputs(m, spec['k'])
    m.set_inputs(prob, inputs)
    for key, v in inputs.items():
        s = (m.comps[key[0]]['outs'] if key[1] == 'o' else m.comps[key[0]]['ins'])[key[2]]['s']
        check_close(prob[m.root_name(key)], full(s, v), 'read back of %s' % m.abs_name(key), 0, 0)
    prob.run()
    m.check_values(prob, m.ref_values(inputs), inputs, what='second run: ')


@st.composite
def coupled(draw):
    spec = draw(gen_model(max_comps=7, min_comps=4, kinds=('lin', 'exec', 'mf'), impl=10,
                          cyclic=draw(st.booleans()), scatter=True, groupkinds=False))
    return dict(model=spec, k=draw(st.integers(1, 2)))


def nlgs_configure(m, maxiter=300):
    from openmdao.api import NLGaussSeidel, ScipyGMRES

    def configure(node, g):
        if m.needs_iteration(node):
            g.ln_solver = ScipyGMRES()
            g.nl_solver = NLGaussSeidel()
            g.nl_solver.options['atol'] = 1e-13
            g.nl_solver.options['rtol'] = 1e-13
            g.nl_solver.options['maxiter'] = maxiter
    return configure


def run_coupled(spec, log):
    m = Model(spec['model'])
    n_conn = labels(m, log)
    it = [n for n in m.groups if m.needs_iteration(n)]
    log.label('iterating groups: %d' % min(len(it), 3))
    log.nontrivial(n_conn >= 2 and len(it) > 0)
    prob = m.build(configure=nlgs_configure(m))
    inputs = m.input_defaults()
    prob.run()
    m.check_values(prob, m.ref_values(inputs), inputs, 1e-7, 1e-7)
    inputs = new_inputs(m, spec['k'])
    m.set_inputs(prob, inputs)
    prob.run()
    m.check_values(prob, m.ref_values(inputs), inputs, 1e-7, 1e-7, what='second run: ')



# ---------------------------------------------------------------- pass by object

class ObjModel(Model):
    """The same structures, carrying objects instead of numbers."""

    def _math(self):
        pass

    def fresh(self, ci, oi, tag):
        kind = (self.comps[ci]['seed'] + oi) % 4
        o = self.comps[ci]['outs'][oi]
        return [['list', tag], {'v': tag}, ('tuple', tag), 'str %s' % (tag,)][kind]

    def default(self, ci, k):
        p = self.comps[ci]['ins'][k]
        if p['src'] is None:
            return ['dangling', ci, k]
        cj, oj = p['src']
        return self.fresh(cj, oj, 'none')


def obj_factory(objs):
    from openmdao.api import Component, IndepVarComp

    class ObjComp(Component):
        def __init__(self, m, ci):
            super(ObjComp, self).__init__()
            self.m, self.ci = m, ci
            c = m.comps[ci]
            for k, p in enumerate(c['ins']):
                self.add_param(p['n'], m.default(ci, k), pass_by_obj=True)
            self.add_param('num_in%d' % ci, 1.5)
            for oi, o in enumerate(c['outs']):
                self.add_output(o['n'], m.fresh(ci, oi, 'none'), pass_by_obj=True)
            self.add_output('num_out%d' % ci, 0.0)

        def solve_nonlinear(self, params, unknowns, resids):
            c = self.m.comps[self.ci]
            got = [params[p['n']] for p in c['ins']]
            objs['n'] += 1
            for oi, o in enumerate(c['outs']):
                v = self.m.fresh(self.ci, oi, 'run%d %r' % (objs['n'], got))
                objs[self.ci, oi] = v
                unknowns[o['n']] = v
            unknowns['num_out%d' % self.ci] = 2.0 * params['num_in%d' % self.ci]

    def factory(m, ci, log):
        c = m.comps[ci]
        if c['kind'] == 'indep':
            items = []
            for oi, o in enumerate(c['outs']):
                objs[ci, oi] = m.fresh(ci, oi, 'init')
                items.append((o['n'], objs[ci, oi], {'pass_by_obj': True}))
            return IndepVarComp(items)
        return ObjComp(m, ci)
    return factory


def pbo_strategy():
    return gen_model(max_comps=7, kinds=('lin',), units=False, idx=False, noshape=False)


def run_pbo(spec, log):
    m = ObjModel(spec)
    for c in m.comps:
        names = [o['n'] for o in c['outs']] + [p['n'] for p in c['ins']]
    objs = {'n': 0}
    prob = m.build(comp_factory=obj_factory(objs))
    n_conn = sum(1 for c in m.comps for p in c['ins'] if p['src'])
    log.nontrivial(n_conn >= 2 and len(m.groups) > 1)
    for rnd in range(2):
        if rnd:
            for key in m.indep_keys():
                v = m.fresh(key[0], key[2], 'set%d' % rnd)
                objs[key[0], key[2]] = v
                prob[m.root_name(key)] = v
                check(prob[m.root_name(key)] is v, 'object set on %s is not read back', m.abs_name(key))
        prob.run()
        for key in m.unknown_keys():
            check(prob[m.root_name(key)] is objs[key[0], key[2]],
                  'output %s holds %r, not the object its component produced (%r)', m.abs_name(key),
                  prob[m.root_name(key)], objs[key[0], key[2]])
        for key in m.param_keys():
            p = m.comps[key[0]]['ins'][key[2]]
            v = m.comp_of(prob, key[0]).params[p['n']]
            if p['src'] is None:
                check(v == ['dangling', key[0], key[2]], 'unconnected object input changed to %r', v)
            else:
                check(v is objs[tuple(p['src'])],
                      'object input %s holds %r instead of its source %r', m.abs_name(key), v,
                      objs[tuple(p['src'])])


# ---------------------------------------------------------------- linked inputs

@st.composite
def linked(draw):
    """Inputs linked to each other by a common promoted name or by connecting
    input to input, with at most one source per linked set."""
    n = draw(st.integers(2, 7))
    parent = draw(st.lists(st.integers(0, 3), min_size=n, max_size=n))   # which group
    nsets = draw(st.integers(1, 3))
    which = draw(st.lists(st.integers(0, nsets - 1), min_size=n, max_size=n))
    byname = draw(st.lists(st.integers(0, 3), min_size=n, max_size=n))
    sets = []
    for k in range(nsets):
        mem = [i for i in range(n) if which[i] == k]
        edges = []
        for a, i in enumerate(mem[1:], 1):
            j = mem[draw(st.integers(0, a - 1))]
            edges.append([i, j] if draw(st.booleans()) else [j, i])
        sets.append(dict(members=mem, edges=edges, source=draw(st.integers(0, 2)) > 0,
                         entry=draw(st.sampled_from(mem)) if mem else 0,
                         unit=draw(st.sampled_from([None, 'm', 'degC'])),
                         shape=draw(st.sampled_from([0, [2], [2, 2]])),
                         vals=draw(st.lists(VALS, min_size=8, max_size=8))))
    edges_n = sum(len(s['edges']) for s in sets)
    return dict(n=n, parent=parent, byname=byname, sets=sets,
                order=draw(st.permutations(list(range(edges_n + nsets)))),
                add=draw(st.permutations(list(range(n)))))


def run_linked(spec, log):
    from openmdao.api import Problem, Group, Component, IndepVarComp
    from pbt.models import nsize, conv
    setof = {}
    for k, s in enumerate(spec['sets']):
        for i in s['members']:
            setof[i] = k

    class Sink(Component):
        def __init__(self, i):
            super(Sink, self).__init__()
            s = spec['sets'][setof[i]]
            kw = {'units': s['unit']} if s['unit'] else {}
            self.vn = 'shared%d' % setof[i] if spec['byname'][i] == 0 else 'x%d' % i
            self.add_param(self.vn, full(s['shape'], np.zeros(nsize(s['shape']))), **kw)
            self.add_output('y%d' % i, full(s['shape'], np.zeros(nsize(s['shape']))))
            self.i = i

        def solve_nonlinear(self, params, unknowns, resids):
            unknowns['y%d' % self.i] = params[self.vn] * 2.0

    root = Group()
    groups = []
    for gi in range(3):
        g = Group()
        groups.append(g)
        root.add('g%d' % gi, g, promotes=['shared*'])
    src_unit = {'m': 'ft', 'degC': 'degF', None: None}
    for k, s in enumerate(spec['sets']):
        if s['source'] and s['members']:
            kw = {'units': src_unit[s['unit']]} if s['unit'] else {}
            root.add('src%d' % k, IndepVarComp('v', full(s['shape'], s['vals'][:nsize(s['shape'])]), **kw))
    name = {}
    comps = {}
    for i in spec['add']:
        comps[i] = c = Sink(i)
        g = spec['parent'][i]
        if g == 3:
            root.add('c%d' % i, c, promotes=['shared*'] if c.vn.startswith('shared') else None)
            name[i] = c.vn if c.vn.startswith('shared') else 'c%d.%s' % (i, c.vn)
        else:
            groups[g].add('c%d' % i, c, promotes=['shared*'] if c.vn.startswith('shared') else None)
            name[i] = c.vn if c.vn.startswith('shared') else 'g%d.c%d.%s' % (g, i, c.vn)
    for gi in range(3):      # a promotes pattern must match something
        if not any(spec['parent'][i] == gi and comps[i].vn.startswith('shared') for i in comps):
            groups[gi]._promotes = ()
    conns = []
    for k, s in enumerate(spec['sets']):
        for i, j in s['edges']:
            conns.append((name[i], name[j]) if name[i] != name[j] else None)
        conns.append(('src%d.v' % k, name[s['entry']]) if s['source'] and s['members'] else None)
    done = set()
    for o in spec['order']:
        if conns[o] and conns[o] not in done:
            done.add(conns[o])
            root.connect(*conns[o])
    prob = Problem(root=root)
    prob.setup(check=False)
    log.nontrivial(any(len(s['members']) >= 3 for s in spec['sets']))
    want = {}
    for rnd in range(2):
        for k, s in enumerate(spec['sets']):
            if not s['members']:
                continue
            sz = nsize(s['shape'])
            v = np.array(s['vals'][:sz]) if rnd == 0 else np.array(s['vals'][sz:2 * sz] * 4)[:sz] + 0.5
            if s['source']:
                log.label('set with source: %d members' % min(len(s['members']), 3))
                if rnd:
                    prob['src%d.v' % k] = full(s['shape'], v)
                a, b = conv(src_unit[s['unit']], s['unit'])
                v = a * v + b
            elif rnd == 0:
                v = v * 0.0
            else:
                log.label('sourceless set: %d members' % min(len(s['members']), 3))
                prob[name[s['members'][-1]]] = full(s['shape'], v)
            want[k] = v
        prob.run()
        for i in range(spec['n']):
            s = spec['sets'][setof[i]]
            check_close(comps[i].params[comps[i].vn], full(s['shape'], want[setof[i]]),
                        'linked input %s (run %d)' % (name[i], rnd), 1e-9, 1e-9)
            y = name[i].rsplit('.', 1)[0] if '.' in name[i] else None
            path = ('g%d.' % spec['parent'][i] if spec['parent'][i] < 3 else '') + 'c%d.y%d' % (i, i)
            check_close(prob[path], full(s['shape'], 2.0 * want[setof[i]]), 'output of %s' % path, 1e-9, 1e-9)


FACETS = [
    Facet('acyclic', acyclic, run_acyclic, 2100,
          rule='random feed-forward model in a random hierarchy, run at two input points and every '
               'variable compared with NumPy; non-trivial: >=3 components and >=2 connections'),
    Facet('coupled', coupled, run_coupled, 900,
          rule='cyclic or cross-grouped models iterated by Gauss-Seidel; non-trivial: some group iterates'),
    Facet('objects', pbo_strategy, run_pbo, 600,
          rule='the same structures passing Python objects; non-trivial: nested, >=2 connections'),
    Facet('linked', linked, run_linked, 900,
          rule='inputs linked input-to-input or by a shared promoted name, with and without a source; '
               'non-trivial: a linked set of >=3 inputs'),
]
