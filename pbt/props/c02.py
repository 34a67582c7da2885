"""C02 total derivatives equal the exact chain rule."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Facet, check
from pbt.derivs import MASKS, check_array, check_totals, pick
from pbt.models import Model, gen_model, nsize
from pbt.props.c01 import impl_of, labels, nlgs_configure

ASSUMPTIONS = ['serial execution (no MPI)',
               'analytic modes agree to 1e-6 and finite differences to 2e-4 of the block scale',
               'LinearGaussSeidel is only used where it is applicable (feed-forward groups)']


@st.composite
def plain(draw):
    fdk = draw(st.integers(0, 3)) == 0
    root_ln = draw(st.sampled_from(['lgs', 'gmres']))
    spec = draw(gen_model(max_comps=7, min_comps=3, mild=root_ln == 'gmres',
                          kinds=('lin', 'mf', 'exec') + (('fd', 'cs') if fdk else ()), impl=20))
    return dict(model=spec, wrt=draw(MASKS), of=draw(MASKS),
                root_ln=root_ln,
                impl=draw(st.sampled_from(['basic', 'basic', 'basic', 'petsc'])),
                modes=draw(st.permutations(['fwd', 'rev', 'fd', 'auto'])))


def ln_configure(m, root_ln):
    from openmdao.api import ScipyGMRES

    def configure(node, g):
        if node['_path'] == () and root_ln == 'gmres':
            g.ln_solver = ScipyGMRES()
        g.deriv_options['form'] = 'central'
        g.deriv_options['step_size'] = 1e-6
    return configure


def has_fd(m):
    return any(c['kind'] in ('fd',) for c in m.comps)


def settle(prob, mode):
    """A finite difference leaves the inputs at the last point it visited (known
    finding of C24): bring the model back before asking for other derivatives."""
    if mode == 'fd':
        prob.run()


def nontrivial(m, S, of, wrt, log):
    n = 0
    for o in of:
        for w in wrt:
            if o[0] != w[0]:
                a, b = m.off[(o[0], o[2])]
                c, d = m.off[(w[0], w[2])]
                if np.any(S[a:b, c:d]):
                    n += 1
    log.label('dependent pairs: %s' % ('0' if n == 0 else '1-2' if n < 3 else '3+'))
    log.nontrivial(n >= 1)


def connected_indeps(m):
    """Independent outputs that feed something (finite differences across the
    model are defined only for these: 'All params must have a IndepVarComp' and
    be inputs of the model)."""
    used = set(tuple(p['src']) for c in m.comps for p in c['ins'] if p['src'])
    return [k for k in m.indep_keys() if (k[0], k[2]) in used]


def run_plain(spec, log):
    m = Model(spec['model'])
    labels(m, log)
    for c in m.comps:
        log.label('kind:' + c['kind'])
    if not connected_indeps(m):
        return
    wrt = pick(connected_indeps(m), spec['wrt'])
    of = pick(m.unknown_keys(), spec['of'])
    prob = m.build(configure=ln_configure(m, spec['root_ln']), impl=impl_of(spec['impl']))
    prob.run()
    inputs = m.input_defaults()
    U = m.ref_values(inputs)
    S = m.ref_totals(U, inputs)
    nontrivial(m, S, of, wrt, log)
    wn = [m.root_name(k) for k in wrt]
    on = [m.root_name(k) for k in of]
    for mode in spec['modes']:
        tol = 3e-3 if has_fd(m) else 2e-4 if mode == 'fd' else 1e-6
        J = prob.calc_gradient(wn, on, mode=mode, return_format='dict')
        check_totals(m, S, J, of, wrt, mode, tol)
        settle(prob, mode)
    # the inputs keep the last point of a finite difference (known finding of C24)
    m.check_values(prob, U, inputs, what='after gradients: ', params=False)


@st.composite
def indexed(draw):
    root_ln = draw(st.sampled_from(['lgs', 'gmres']))
    spec = draw(gen_model(max_comps=6, min_comps=3, kinds=('lin', 'mf', 'exec'), impl=15,
                          mild=root_ln == 'gmres'))
    return dict(model=spec, wrt=draw(MASKS), of=draw(MASKS),
                root_ln=root_ln,
                idx=draw(st.lists(st.integers(0, 5), min_size=6, max_size=6)),
                which=draw(MASKS), fmt=draw(st.sampled_from(['list', 'array'])),
                modes=draw(st.permutations(['fwd', 'rev', 'fd'])))


def make_idx(spec, k, size):
    """Distinct indices (possibly unsorted) into a variable of this size."""
    want = [i % size for i in spec['idx'][:1 + k % 4]]
    out = []
    for i in want:
        if i not in out:
            out.append(i)
    return out


def run_indexed(spec, log):
    """Design variables and responses declared on the driver, with indices."""
    m = Model(spec['model'])
    labels(m, log)
    if not connected_indeps(m):
        return
    wrt = pick(connected_indeps(m), spec['wrt'])
    of = [k for k in pick(m.unknown_keys(), spec['of']) if k not in wrt] or \
        [k for k in m.unknown_keys() if k not in wrt][:1]
    if not of:
        return
    of_idx, wrt_idx = {}, {}
    for j, k in enumerate(wrt):
        s = m.comps[k[0]]['outs'][k[2]]['s']
        if s != 0 and len(s) == 1 and (spec['which'] >> j) & 1:
            wrt_idx[k] = make_idx(spec, j, nsize(s))
    for j, k in enumerate(of):
        s = m.comps[k[0]]['outs'][k[2]]['s']
        if s != 0 and len(s) == 1 and (spec['which'] >> (8 + j)) & 1:
            of_idx[k] = make_idx(spec, j + 1, nsize(s))
    form = (lambda x: x) if spec['fmt'] == 'list' else np.array

    def hook(prob):
        for k in wrt:
            kw = {'indices': form(wrt_idx[k])} if k in wrt_idx else {}
            prob.driver.add_desvar(m.root_name(k), **kw)
        for j, k in enumerate(of):
            kw = {'indices': form(of_idx[k])} if k in of_idx else {}
            if j == 0:
                prob.driver.add_objective(m.root_name(k), **kw)
            else:
                prob.driver.add_constraint(m.root_name(k), upper=0.0, **kw)
    prob = m.build(configure=ln_configure(m, spec['root_ln']), problem_hook=hook)
    prob.run()
    inputs = m.input_defaults()
    U = m.ref_values(inputs)
    S = m.ref_totals(U, inputs)
    nontrivial(m, S, of, wrt, log)
    if of_idx:
        log.label('response indices')
    if wrt_idx:
        log.label('design variable indices')
    wn = [m.root_name(k) for k in wrt]
    on = [m.root_name(k) for k in of]
    for mode in spec['modes']:
        tol = 2e-4 if mode == 'fd' else 1e-6
        J = prob.calc_gradient(wn, on, mode=mode, return_format='dict')
        check_totals(m, S, J, of, wrt, mode, tol, of_idx, wrt_idx)
        J = prob.calc_gradient(wn, on, mode=mode, return_format='array')
        check_array(m, S, J, of, wrt, mode, tol, of_idx, wrt_idx)
        settle(prob, mode)


@st.composite
def coupled(draw):
    spec = draw(gen_model(max_comps=6, min_comps=4, kinds=('lin', 'exec', 'mf'), impl=15, mild=True,
                          cyclic=draw(st.booleans()), scatter=True, groupkinds=False))
    return dict(model=spec, wrt=draw(MASKS), of=draw(MASKS),
                modes=draw(st.permutations(['fwd', 'rev', 'fd'])))


def run_coupled(spec, log):
    m = Model(spec['model'])
    labels(m, log)
    if not connected_indeps(m):
        return
    wrt = pick(connected_indeps(m), spec['wrt'])
    of = pick(m.unknown_keys(), spec['of'])
    from openmdao.api import ScipyGMRES
    conf = nlgs_configure(m)

    def configure(node, g):
        conf(node, g)
        g.deriv_options['form'] = 'central'
        g.deriv_options['step_size'] = 1e-5
        if node['_path'] == ():
            g.ln_solver = ScipyGMRES()
    prob = m.build(configure=configure)
    prob.run()
    inputs = m.input_defaults()
    U = m.ref_values(inputs)
    S = m.ref_totals(U, inputs)
    nontrivial(m, S, of, wrt, log)
    if any(m.needs_iteration(n) for n in m.groups):
        log.label('has cycles')
    wn = [m.root_name(k) for k in wrt]
    on = [m.root_name(k) for k in of]
    for mode in spec['modes']:
        J = prob.calc_gradient(wn, on, mode=mode, return_format='dict')
        check_totals(m, S, J, of, wrt, mode, 1e-3 if mode == 'fd' else 1e-5)
        settle(prob, mode)


@st.composite
def fdgroups(draw):
    cyc = draw(st.integers(0, 3)) == 0
    root_ln = draw(st.sampled_from(['lgs', 'gmres']))
    spec = draw(gen_model(max_comps=6, min_comps=3, kinds=('lin', 'exec', 'mf'), impl=15, groupkinds=False,
                          mild=cyc or root_ln == 'gmres',
                          cyclic=cyc, scatter=cyc))
    return dict(model=spec, wrt=draw(MASKS), of=draw(MASKS), fd=draw(st.integers(0, 255)),
                form=draw(st.sampled_from(['central', 'forward', 'backward'])),
                modes=draw(st.permutations(['fwd', 'rev'])),
                root_ln=root_ln,
                fdkind=draw(st.sampled_from(['fd', 'fd', 'parallel', 'cs'])))


def run_fdgroups(spec, log):
    """Sub-groups that finite-difference (or complex-step) themselves."""
    from openmdao.api import ScipyGMRES
    m = Model(spec['model'])
    cyc = any(m.needs_iteration(n) for n in m.groups)
    fd = []
    for j, node in enumerate(m.groups):
        members = m._members(node)
        if node['_path'] != () and (spec['fd'] >> (j % 8)) & 1 and \
                not any(m.comps[ci]['kind'] == 'indep' for ci in members):
            if not any(node['_path'][:len(f)] == f for f in fd):
                fd.append(node['_path'])
    # at least one group self-differences if one can
    if not fd:
        for node in m.groups:
            if node['_path'] != () and not any(m.comps[ci]['kind'] == 'indep' for ci in m._members(node)):
                fd.append(node['_path'])
                break
    conf = nlgs_configure(m)

    def configure(node, g):
        if cyc:
            conf(node, g)
        if node['_path'] in fd:
            g.deriv_options['type'] = 'fd'
            g.deriv_options['form'] = spec['form']
            g.deriv_options['step_size'] = 1e-6
        if node['_path'] == () and (cyc or spec['root_ln'] == 'gmres'):
            g.ln_solver = ScipyGMRES()
    prob = m.build(configure=configure)
    prob.run()
    inputs = m.input_defaults()
    U = m.ref_values(inputs)
    S = m.ref_totals(U, inputs)
    if not connected_indeps(m):
        return
    wrt = pick(connected_indeps(m), spec['wrt'])
    of = pick(m.unknown_keys(), spec['of'])
    nontrivial(m, S, of, wrt, log)
    log.label('fd groups: %d' % min(len(fd), 2))
    if not fd:
        log.is_nontrivial = False
    wn = [m.root_name(k) for k in wrt]
    on = [m.root_name(k) for k in of]
    for mode in spec['modes']:
        J = prob.calc_gradient(wn, on, mode=mode, return_format='dict')
        check_totals(m, S, J, of, wrt, mode, 2e-3)
    m.check_values(prob, U, inputs, 1e-7, 1e-7, what='after gradients: ', params=False)


# ------------------------------------------------------------------ magnitudes

@st.composite
def magnitudes(draw):
    n = draw(st.integers(1, 5))
    comps = []
    for i in range(n):
        srcs = draw(st.lists(st.integers(0, i), min_size=1, max_size=2, unique=True))
        comps.append(dict(srcs=srcs, size=draw(st.integers(1, 3)), exps=draw(st.lists(st.integers(-2, 12), min_size=len(srcs), max_size=len(srcs))),
                          seed=draw(st.integers(0, 99)), grp=draw(st.integers(0, 2)), mf=draw(st.booleans())))
    return dict(size=draw(st.integers(1, 3)), comps=comps, scaler=draw(st.sampled_from([1.0, 1.0, 1e-9, 1e9])), adder=draw(st.sampled_from([0.0, 2.0])), modes=draw(st.permutations(['fwd', 'rev', 'auto'])),
                fmt=draw(st.sampled_from(['dict', 'array'])), driver=draw(st.booleans()))


def run_magnitudes(spec, log):
    """Derivatives of very different sizes in one model are each as exact as the others.
    (Right-hand sides below 1e-15 are treated as zero by the groups, so products stay above that.)
    (Solvers that factorize a matrix are only exact compared with its largest entries, and are not used here.)"""
    from openmdao.api import Problem, Group, Component, IndepVarComp
    sizes = [spec['size']] + [c['size'] for c in spec['comps']]
    mats = []
    for i, c in enumerate(spec['comps']):
        rng = np.random.RandomState(c['seed'])
        mats.append(dict((j, rng.uniform(.5, 2., (c['size'], sizes[j])) * 10. ** e) for j, e in zip(c['srcs'], c['exps'])))

    class Lin(Component):
        def __init__(self, i, A):
            super(Lin, self).__init__()
            self.i, self.A = i, A
            for j in A:
                self.add_param('x%d' % j, np.zeros(sizes[j]))
            self.add_output('y', np.zeros(sizes[i + 1]))

        def solve_nonlinear(self, params, unknowns, resids):
            unknowns['y'] = sum(A.dot(params['x%d' % j]) for j, A in self.A.items())

        def linearize(self, params, unknowns, resids):
            return dict((('y', 'x%d' % j), A) for j, A in self.A.items())

    class Free(Lin):
        def linearize(self, params, unknowns, resids):
            return None

        def apply_linear(self, params, unknowns, dparams, dunknowns, dresids, mode):
            for j, A in self.A.items():
                if 'x%d' % j in dparams and 'y' in dresids:
                    if mode == 'fwd':
                        dresids['y'] += A.dot(dparams['x%d' % j])
                    else:
                        dparams['x%d' % j] += A.T.dot(dresids['y'])
    prob = Problem(root=Group())
    root = prob.root
    root.add('p', IndepVarComp('x', np.ones(spec['size'])))
    names = ['p.x']
    grps = {}
    last = 0
    for i, c in enumerate(spec['comps']):
        g = last = max(last, c['grp'])
        if g and g not in grps:
            grps[g] = root.add('g%d' % g, Group())
        (grps[g] if g else root).add('c%d' % i, (Free if c['mf'] else Lin)(i, mats[i]))
        names.append(('g%d.' % g if g else '') + 'c%d.y' % i)
        for j in c['srcs']:
            root.connect(names[j], names[-1][:-1] + 'x%d' % j)
    if spec['driver']:
        prob.driver.add_desvar('p.x', scaler=spec['scaler'], adder=spec['adder'])
        prob.driver.add_objective(names[-1])
    T = [np.eye(spec['size'])]
    for i in range(len(mats)):
        T.append(sum(A.dot(T[j]) for j, A in mats[i].items()))
    prob.setup(check=False)
    prob.run()
    for mode in spec['modes']:
        J = prob.calc_gradient(['p.x'], names[1:], mode=mode, return_format=spec['fmt'])
        row = 0
        for k, n in enumerate(names[1:], 1):
            got = J[n]['p.x'] if spec['fmt'] == 'dict' else J[row:row + sizes[k]]
            row += sizes[k]
            check(np.shape(got) == T[k].shape and np.all(np.abs(got - T[k]) <= 1e-8 * np.abs(T[k])), '%s mode: d %s / d x is %s, expected %s', mode, n, got, T[k])
    small = max(abs(e) for c in spec['comps'] for e in c['exps'])
    log.nontrivial(small >= 4 and len(mats) > 1)


FACETS = [
    Facet('plain', plain, run_plain, 1200,
          rule='random feed-forward models; fwd, rev, auto and fd totals vs analytic dense chain rule; '
               'non-trivial: some requested pair has a non-zero derivative across components'),
    Facet('indexed', indexed, run_indexed, 700,
          rule='desvars/objective/constraints with indices on the driver; same non-triviality'),
    Facet('coupled', coupled, run_coupled, 500,
          rule='cyclic / cross-grouped models, GMRES; same non-triviality'),
    Facet('fdgroups', fdgroups, run_fdgroups, 500,
          rule='models with self-finite-differencing groups; same non-triviality and a group that does so'),
    Facet('magnitudes', magnitudes, run_magnitudes, 250, rule='several components, derivatives over four orders of magnitude'),
]
