"""C03 linear solver, relevance and return-format choices never change derivatives."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Facet, check
from pbt.derivs import MASKS, check_array, check_totals, pick
from pbt.models import Model, gen_model, nsize
from pbt.props.c01 import impl_of, labels, new_inputs, nlgs_configure
from pbt.props.c02 import connected_indeps, nontrivial

ASSUMPTIONS = ['serial execution (no MPI): parallel derivative groups are solved together by LinearGaussSeidel '
               'in one process',
               'iterative solvers are compared to 1e-5 of the block scale, on models with modest scaling',
               'a solver is used only where it applies: LinearGaussSeidel with maxiter 1 in feed-forward groups or '
               'below an iterating solver, assembled Jacobians only where every component has one']

KINDS = ['lgs', 'gmres', 'direct', 'direct-solve', 'assemble', 'assemble-solve', 'gmres+lgs', 'gmres+direct', 'petsc']


def make_solver(kind, maxiter=1):
    from openmdao.api import DirectSolver, LinearGaussSeidel, ScipyGMRES
    if kind == 'lgs':
        s = LinearGaussSeidel()
        s.options['maxiter'] = maxiter
        if maxiter > 1:
            s.options['atol'] = 1e-13
            s.options['rtol'] = 1e-13
        return s
    if kind.startswith('direct') or kind.startswith('assemble'):
        s = DirectSolver()
        s.options['jacobian_method'] = 'assemble' if kind.startswith('assemble') else 'MVP'
        s.options['solve_method'] = 'solve' if kind.endswith('solve') else 'LU'
        return s
    if kind == 'petsc':
        from openmdao.solvers.petsc_ksp import PetscKSP
        return PetscKSP()
    s = ScipyGMRES()
    if kind == 'gmres+lgs':
        s.preconditioner = LinearGaussSeidel()
    elif kind == 'gmres+direct':
        s.preconditioner = DirectSolver()
    return s


@st.composite
def solvers(draw):
    asm = draw(st.booleans())
    spec = draw(gen_model(max_comps=6, min_comps=3, kinds=('lin', 'exec') if asm else ('lin', 'exec', 'mf', 'cs'),
                          impl=0 if asm else 20, mild=True, cyclic=draw(st.booleans()), scatter=True,
                          groupkinds=False))
    return dict(model=spec, wrt=draw(MASKS), of=draw(MASKS), asm=asm,
                impl='petsc' if draw(st.integers(0, 3)) == 0 else 'basic',
                ln=draw(st.lists(st.integers(0, 8), min_size=8, max_size=8)),
                modes=draw(st.permutations(['fwd', 'rev'])),
                k=draw(st.integers(0, 50)))


def solver_kinds(m, spec):
    """The solver of every group, by path."""
    mf = any(c['kind'] in ('mf', 'implmf') for c in m.comps)
    out = {}
    for j, node in enumerate(m.groups):
        path = tuple(node['_path'])
        kind = KINDS[spec['ln'][j % 8]]
        if kind == 'petsc' and spec['impl'] != 'petsc':
            kind = 'gmres'
        if kind.startswith('assemble') and mf:
            kind = 'direct'
        if kind == 'lgs' and m.needs_iteration(node) and \
                any(m.comps[ci]['kind'].startswith('impl') for ci in m._members(node)):
            kind = 'gmres'
        out[path] = kind
    return no_reentrancy(out)


def no_reentrancy(out):
    """SciPy's gmres cannot be called from within its own preconditioner."""
    for path in out:
        if out[path].startswith('gmres') and \
                any(out.get(path[:n], '').startswith('gmres+') for n in range(len(path))):
            out[path] = 'direct'
    return out


def solver_configure(m, spec, log):
    conf = nlgs_configure(m)
    kinds = solver_kinds(m, spec)

    def configure(node, g):
        conf(node, g)
        kind = kinds[tuple(node['_path'])]
        g.ln_solver = make_solver(kind, 200 if kind == 'lgs' and m.needs_iteration(node) else 1)
        log.label('%s%s' % (kind, ' (root)' if node['_path'] == () else ''))
    return configure


def run_solvers(spec, log):
    m = Model(spec['model'])
    if not connected_indeps(m):
        return
    prob = m.build(configure=solver_configure(m, spec, log), impl=impl_of(spec['impl']))
    wrt = pick(m.indep_keys(), spec['wrt'])
    of = pick(m.unknown_keys(), spec['of'])
    wn = [m.root_name(k) for k in wrt]
    on = [m.root_name(k) for k in of]
    inputs = m.input_defaults()
    for step in range(2):
        prob.run()
        U = m.ref_values(inputs)
        S = m.ref_totals(U, inputs)
        if step == 0:
            nontrivial(m, S, of, wrt, log)
        for mode in spec['modes']:
            J = prob.calc_gradient(wn, on, mode=mode, return_format='dict')
            check_totals(m, S, J, of, wrt, '%s (point %d)' % (mode, step), 1e-5)
        inputs = new_inputs(m, spec['k'])
        m.set_inputs(prob, inputs)


# ---------------------------------------------------------------- relevance and return formats

@st.composite
def relevance(draw):
    spec = draw(gen_model(max_comps=7, min_comps=3, kinds=('lin', 'exec', 'mf'), impl=10, mild=True))
    return dict(model=spec, wrt=draw(MASKS), of=draw(MASKS),
                sub=draw(st.lists(st.integers(0, 8), min_size=8, max_size=8)),
                red=draw(st.booleans()), par=draw(st.integers(0, 3)),
                fdg=draw(st.one_of(st.just(0), MASKS)),
                idx=draw(st.lists(st.integers(0, 5), min_size=6, max_size=6)), which=draw(MASKS),
                mode=draw(st.sampled_from(['fwd', 'rev'])),
                asks=draw(st.lists(st.tuples(MASKS, MASKS, st.sampled_from(['dict', 'array'])).map(list),
                                   min_size=1, max_size=3)))


def run_relevance(spec, log):
    """Root LinearGaussSeidel with relevance reduction and/or groups of variables
    of interest solved together; several requests in a row."""
    m = Model(spec['model'])
    labels(m, log)
    if not connected_indeps(m):
        return
    wrt = pick(m.indep_keys(), spec['wrt'])
    of = [k for k in pick(m.unknown_keys(), spec['of']) if k not in wrt] or \
        [k for k in m.unknown_keys() if k not in wrt][:1]
    if not of:
        return
    idx = {}
    for j, k in enumerate(wrt + of):
        s = m.comps[k[0]]['outs'][k[2]]['s']
        if s != 0 and len(s) == 1 and (spec['which'] >> j) & 1:
            want = [i % nsize(s) for i in spec['idx'][:1 + j % 4]]
            idx[k] = [i for n, i in enumerate(want) if i not in want[:n]]
    mode = spec['mode']

    def group_of(keys):
        """The largest set of same-width variables that has at least two."""
        by = {}
        for k in keys:
            w = len(idx[k]) if k in idx else nsize(m.comps[k[0]]['outs'][k[2]]['s'])
            by.setdefault(w, []).append(k)
        best = max(by.values(), key=len)
        return best if len(best) > 1 else None
    par = group_of(wrt if mode == 'fwd' else of) if spec['par'] else None

    def hook(prob):
        for k in wrt:
            kw = {'indices': idx[k]} if k in idx else {}
            prob.driver.add_desvar(m.root_name(k), **kw)
        for j, k in enumerate(of):
            kw = {'indices': idx[k]} if k in idx else {}
            if j == 0:
                prob.driver.add_objective(m.root_name(k), **kw)
            else:
                prob.driver.add_constraint(m.root_name(k), upper=0.0, **kw)
        if par:
            # Driver.parallel_derivs only takes effect under MPI; the solver
            # handles such groups in one process just as well
            prob.driver.parallel_derivs([m.root_name(k) for k in par])
            names = tuple(m.root_name(k) for k in par)
            if names not in prob.driver._voi_sets:
                prob.driver._voi_sets.append(names)

    mf = any(c['kind'] in ('mf', 'implmf') for c in m.comps)
    kinds = {}
    for j, node in enumerate(m.groups):
        kind = KINDS[spec['sub'][j % 8]]
        if kind == 'petsc' or node['_path'] == ():
            kind = 'lgs'
        kinds[tuple(node['_path'])] = 'direct' if mf and kind.startswith('assemble') else kind
    kinds = no_reentrancy(kinds)
    fdg = []
    for j, node in enumerate(m.groups):
        path = tuple(node['_path'])
        if path != () and (spec.get('fdg', 0) >> (j % 8)) & 1 and not any(path[:len(f)] == f for f in fdg) and \
                not any(m.comps[ci]['kind'] == 'indep' for ci in m._members(node)):
            fdg.append(path)
    tol = 2e-3 if fdg else 1e-6

    def configure(node, g):
        if tuple(node['_path']) in fdg:
            # a group that finite differences itself is one system to its parent
            g.deriv_options['type'] = 'fd'
            g.deriv_options['form'] = 'central'
            g.deriv_options['step_size'] = 1e-6
            log.label('group that finite differences itself')
        if node['_path'] == ():
            g.ln_solver.options['single_voi_relevance_reduction'] = spec['red']
            g.ln_solver.options['mode'] = mode
        else:
            g.ln_solver = make_solver(kinds[tuple(node['_path'])])
    prob = m.build(configure=configure, problem_hook=hook)
    prob.run()
    inputs = m.input_defaults()
    U = m.ref_values(inputs)
    S = m.ref_totals(U, inputs)
    nontrivial(m, S, of, wrt, log)
    log.label('reduction' if spec['red'] else 'no reduction')
    if par:
        log.label('group of %d %s' % (len(par), mode))
    if idx:
        log.label('indices')
    for n, (a, b, fmt) in enumerate(spec['asks']):
        w = pick(wrt, a) if a & 1 else list(wrt)
        o = pick(of, b) if b & 1 else list(of)
        if par:
            # a group is solved as a whole, so it is requested as a whole
            if mode == 'fwd':
                w += [k for k in par if k not in w]
            else:
                o += [k for k in par if k not in o]
        J = prob.calc_gradient([m.root_name(k) for k in w], [m.root_name(k) for k in o], mode=mode,
                               return_format=fmt)
        what = 'request %d, %s' % (n, mode)
        (check_totals if fmt == 'dict' else check_array)(m, S, J, o, w, what, tol, idx, idx)
    if fdg:
        m.check_values(prob, U, inputs, 1e-7, 1e-7, what='after gradients: ', params=False)
    else:
        m.check_values(prob, U, inputs, what='after gradients: ')


@st.composite
def formats(draw):
    spec = draw(gen_model(max_comps=6, min_comps=3, kinds=('lin', 'exec', 'mf'), impl=10, mild=True))
    return dict(model=spec, ln=draw(st.sampled_from(['lgs', 'gmres', 'direct'])),
                asks=draw(st.lists(st.tuples(MASKS, MASKS, st.sampled_from(['dict', 'array']),
                                             st.sampled_from(['fwd', 'rev', 'auto', 'fd']),
                                             st.booleans()).map(list), min_size=2, max_size=6)),
                sparse=draw(MASKS))


def run_formats(spec, log):
    """A history of requests on one problem: every answer is the reference one."""
    m = Model(spec['model'])
    labels(m, log)
    if not connected_indeps(m):
        return

    def configure(node, g):
        if node['_path'] == ():
            g.ln_solver = make_solver(spec['ln'])
        g.deriv_options['form'] = 'central'
        g.deriv_options['step_size'] = 1e-6
    prob = m.build(configure=configure)
    prob.run()
    inputs = m.input_defaults()
    U = m.ref_values(inputs)
    S = m.ref_totals(U, inputs)
    nontrivial(m, S, m.unknown_keys(), m.indep_keys(), log)
    for n, (a, b, fmt, mode, sparse) in enumerate(spec['asks']):
        w = pick(connected_indeps(m), a)
        o = pick(m.unknown_keys(), b)
        if fmt == 'array':
            o = [k for k in o if k not in w] or [k for k in m.unknown_keys() if k not in w][:1]
        if not o:
            continue
        what = 'request %d, %s' % (n, mode)
        tol = 2e-4 if mode == 'fd' else 1e-6
        kw = {}
        if sparse and fmt == 'dict':
            # every output keeps a (non-empty) subset of the inputs
            keep = dict((k, pick(w, (spec['sparse'] >> (j % 5)))) for j, k in enumerate(o))
            kw['sparsity'] = dict((m.root_name(k), [m.root_name(x) for x in keep[k]]) for k in o)
            log.label('sparsity')
        J = prob.calc_gradient([m.root_name(k) for k in w], [m.root_name(k) for k in o], mode=mode,
                               return_format=fmt, **kw)
        if kw:
            check(set(J) == set(kw['sparsity']), '%s: outputs %s, asked for %s', what, list(J), list(kw['sparsity']))
            for k in o:
                check_totals(m, S, {m.root_name(k): J[m.root_name(k)]}, [k], keep[k], what + ' sparse', tol)
        elif fmt == 'dict':
            check(list(J) == [m.root_name(k) for k in o], '%s: outputs out of order: %s', what, list(J))
            for row in J.values():
                check(list(row) == [m.root_name(k) for k in w], '%s: inputs out of order: %s', what, list(row))
            check_totals(m, S, J, o, w, what, tol)
        else:
            check_array(m, S, J, o, w, what, tol)
        if mode == 'fd':
            prob.run()
    m.check_values(prob, U, inputs, what='after gradients: ', params=False)


FACETS = [
    Facet('solvers', solvers, run_solvers, 700,
          rule='random models with a random linear solver in every group; totals at two points vs the analytic '
               'chain rule; non-trivial: some requested pair has a non-zero derivative across components'),
    Facet('relevance', relevance, run_relevance, 700,
          rule='relevance reduction, groups of variables solved together, indices, repeated/subset/reordered '
               'requests; same non-triviality'),
    Facet('formats', formats, run_formats, 500,
          rule='histories of requests with changing mode, format, order and sparsity; same non-triviality'),
]
