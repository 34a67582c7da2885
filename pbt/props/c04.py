"""C04 the derivative checking tools report the true error of user derivatives."""
import io

import numpy as np
from hypothesis import strategies as st

from pbt.core import Facet, check, check_close
from pbt.derivs import MASKS, check_block, check_totals, pick, ref_block
from pbt.models import Model, conv, gen_model, make_comp, nsize
from pbt.props.c01 import impl_of, labels, new_inputs
from pbt.props.c02 import connected_indeps

ASSUMPTIONS = ['serial execution (no MPI)',
               'reference derivatives by finite differences agree to 1e-3 (one-sided) or 2e-4 (central) of the block '
               'scale, by complex step to 1e-8; declared ones are compared to 1e-9',
               'inputs that are not connected to anything are not part of the partial derivative check (documented)']

KINDS = ('lin', 'mf', 'exec', 'fd', 'cs')


@st.composite
def plant(draw):
    """Where a wrong Jacobian entry is planted (reduced modulo what exists)."""
    return dict(c=draw(st.integers(0, 50)), o=draw(st.integers(0, 3)), i=draw(st.integers(0, 7)),
                r=draw(st.integers(0, 11)), k=draw(st.integers(0, 11)),
                d=draw(st.sampled_from([0.5, -1.0, 3.0])),
                m=draw(st.sampled_from(['both', 'both', 'fwd', 'rev'])))


@st.composite
def partials(draw):
    spec = draw(gen_model(max_comps=5, min_comps=2, kinds=KINDS, impl=30, mild=True))
    return dict(model=spec, plant=draw(st.one_of(st.none(), plant())),
                impl=draw(st.sampled_from(['basic', 'basic', 'petsc'])),
                type=draw(st.sampled_from(['fd', 'cs'])),
                form=draw(st.sampled_from(['forward', 'backward', 'central'])),
                calc=draw(st.sampled_from(['absolute', 'relative'])),
                how=draw(st.sampled_from(['global', 'comp'])),
                out=draw(st.sampled_from(['none', 'full', 'compact'])),
                run=draw(st.booleans()), comps=draw(MASKS), some=draw(st.booleans()), k=draw(st.integers(0, 50)))


def pairs(m, ci):
    """(output index, name of input or state, width) of every checked pair, with
    the columns in the full Jacobian block."""
    c = m.comps[ci]
    out = []
    for oi, o in enumerate(c['outs']):
        for k, p in enumerate(c['ins']):
            if p['src'] is not None:
                out.append((oi, 'i', k, p['n'], nsize(o['s']), nsize(p['s'])))
        if c['outs'][0].get('state'):
            z = c['outs'][0]
            out.append((oi, 'o', 0, z['n'], nsize(o['s']), nsize(z['s'])))
    return out


def true_partials(m, ci, U, inputs):
    """{(oi, kind, k): dR/d(input in the units of its source), over the residual scaler}"""
    c = m.comps[ci]
    X = m.ref_X(ci, U, inputs)
    Y = [U[slice(*m.off[(ci, oi)])] for oi in range(len(c['outs']))]
    dX, dZ = c['_m'].partials(X, Y)
    out = {}
    for oi, o in enumerate(c['outs']):
        rs = o.get('rs') or 1.0
        col = 0
        for k, p in enumerate(c['ins']):
            w = nsize(p['s'])
            if p['src'] is not None:
                out[oi, 'i', k] = dX[oi][:, col:col + w] * conv(m.out(p['src'])['u'], p['u'])[0] / rs
            col += w
        if c['outs'][0].get('state'):
            out[oi, 'o', 0] = np.array(dZ[oi]) / rs if dZ[oi] is not None else \
                np.zeros((nsize(o['s']), nsize(c['outs'][0]['s'])))
    return out


def place(m, pl, candidates):
    """The planted error: (component, pair, row, column, user delta, modes)."""
    cands = [ci for ci in candidates if pairs(m, ci)]
    if not pl or not cands:
        return None
    ci = cands[pl['c'] % len(cands)]
    ps = [p for p in pairs(m, ci) if p[1] == 'i' or
          m.comps[ci]['_m'].partials(np.zeros(sum(nsize(q['s']) for q in m.comps[ci]['ins'])),
                                     [np.zeros(nsize(o['s'])) for o in m.comps[ci]['outs']])[1][p[0]] is not None]
    oi, t, k, n, rows, cols = ps[(pl['o'] * 8 + pl['i']) % len(ps)]
    mode = pl['m'] if m.comps[ci]['kind'] in ('mf', 'implmf') else 'both'
    return ci, (oi, t, k), (m.comps[ci]['outs'][oi]['n'], n), pl['r'] % rows, pl['k'] % cols, pl['d'], mode


def apply_plant(m, pt):
    if pt is None:
        return
    ci, _, key, r, k, delta, mode = pt
    m.comps[ci]['_plant' if mode == 'both' else '_plant_' + mode] = [(key, r, k, delta)]


def check_entry(d, J, Jf, Jr, tol, what):
    """One reported pair: derivatives and the norms computed from them."""
    check_block(d['J_fd'], J, what + ' J_fd', tol)
    if Jf is not None:
        check_block(d['J_fwd'], Jf, what + ' J_fwd', 1e-9)
        check_block(d['J_rev'], Jr, what + ' J_rev', 1e-9)
        true = [np.linalg.norm(Jf - J), np.linalg.norm(Jr - J), np.linalg.norm(Jf - Jr)]
        check_close(d['magnitude'], [np.linalg.norm(Jf), np.linalg.norm(Jr), np.linalg.norm(d['J_fd'])],
                    what + ' magnitude', 1e-8, 1e-8)
    slack = tol * (1.0 + np.max(np.abs(J))) * J.size ** 0.5
    if Jf is not None:
        check_close(d['abs error'], true, what + ' abs error', 0, slack)
        mag = np.linalg.norm(d['J_fd'])
        if mag > 0:
            check_close(d['rel error'], np.array(d['abs error']) / mag, what + ' rel error', 1e-8, 1e-12)


def tolerance(spec, typ=None):
    if (typ or spec['type']) == 'cs':
        return 1e-8
    return 2e-4 if spec['form'] == 'central' else 1e-3


def run_partials(spec, log):
    m = Model(spec['model'])
    labels(m, log)
    comps = [ci for ci, c in enumerate(m.comps) if c['kind'] != 'indep' and
             any(p['src'] is not None for p in c['ins'])]
    pt = place(m, spec['plant'], [ci for ci in comps if m.comps[ci]['kind'] in ('lin', 'mf', 'impl', 'implmf')])
    apply_plant(m, pt)
    opts = dict(check_type=spec['type'], check_form=spec['form'], check_step_calc=spec['calc'],
                check_step_size=1e-30 if spec['type'] == 'cs' else 1e-6)
    kw = {}
    if spec['how'] == 'global':
        kw['global_options'] = opts

    def factory(model, ci, flog):
        comp = make_comp(model, ci, flog)
        if spec['how'] == 'comp':
            for n, v in opts.items():
                comp.deriv_options[n] = v
        return comp
    prob = m.build(impl=impl_of(spec['impl']), comp_factory=factory)
    if spec['run']:
        prob.run()
    inputs = m.input_defaults()
    out = io.StringIO() if spec['out'] != 'none' else None
    for step in range(2):
        U = m.ref_values(inputs)
        want = pick(comps, spec['comps']) if spec['some'] and comps else comps
        if spec['some'] and comps:
            kw['comps'] = ['.'.join(m.comps[ci]['_path']) for ci in want]
        data = prob.check_partial_derivatives(out_stream=out, compact_print=spec['out'] == 'compact', **kw)
        done = 0
        for ci in want:
            c = m.comps[ci]
            name = '.'.join(c['_path'])
            check(name in data, 'component %s is missing from the report (%s)', name, sorted(data))
            ref = true_partials(m, ci, U, inputs)
            got = dict(data[name])
            for oi, t, k, n, rows, cols in pairs(m, ci):
                o = c['outs'][oi]
                key = (o['n'], n)
                what = 'point %d: %s d %s / d %s' % (step, name, key[0], key[1])
                check(key in got, '%s: pair is missing from the report', what)
                d = got.pop(key)
                J = ref[oi, t, k]
                if c['kind'] in ('fd', 'cs'):
                    own = 1e-8 if c['kind'] == 'cs' else 2e-4
                    check_entry(d, J, None, None, tolerance(spec), what)
                    check_block(d['J_fd2'], J, what + ' J_fd2', own)
                    continue
                Jf, Jr = J.copy(), J.copy()
                if pt and pt[0] == ci and pt[1] == (oi, t, k):
                    f = conv(m.out(c['ins'][k]['src'])['u'], c['ins'][k]['u'])[0] if t == 'i' else 1.0
                    delta = pt[5] * f / (o.get('rs') or 1.0)
                    if pt[6] in ('both', 'fwd'):
                        Jf[pt[3], pt[4]] += delta
                    if pt[6] in ('both', 'rev'):
                        Jr[pt[3], pt[4]] += delta
                    log.label('planted in %s %s %s' % (c['kind'], 'state' if t == 'o' else 'input', pt[6]))
                check_entry(d, J, Jf, Jr, tolerance(spec), what)
                done += 1
            check(not got, 'point %d: %s: unexpected pairs %s', step, name, sorted(got))
        log.nontrivial(done > 0)
        m.check_values(prob, U, inputs, 1e-9, 1e-9, 'after the check: ')
        if step == 0:
            inputs = new_inputs(m, spec['k'])
            m.set_inputs(prob, inputs)
            prob.run()
    log.label('%s %s' % (spec['type'], spec['form'] if spec['type'] == 'fd' else ''))
    if out is not None:
        text = out.getvalue()
        for ci in want:
            check("Component: '%s'" % '.'.join(m.comps[ci]['_path']) in text, 'component %s is not in the printout',
                  '.'.join(m.comps[ci]['_path']))


@st.composite
def totals(draw):
    spec = draw(gen_model(max_comps=6, min_comps=2, kinds=('lin', 'mf', 'exec'), impl=20, mild=True))
    return dict(model=spec, plant=draw(st.one_of(st.none(), plant())),
                wrt=draw(MASKS), of=draw(MASKS), dv=draw(st.booleans()), resp=draw(st.booleans()),
                form=draw(st.sampled_from(['forward', 'backward', 'central'])),
                out=draw(st.booleans()), run=draw(st.booleans()), red=draw(st.booleans()),
                mode=draw(st.sampled_from(['fwd', 'rev'])))


def run_totals(spec, log):
    m = Model(spec['model'])
    labels(m, log)
    if not connected_indeps(m):
        return
    wrt = pick(connected_indeps(m), spec['wrt'])
    of = [k for k in pick(m.unknown_keys(), spec['of']) if k not in m.indep_keys()] or \
        [k for k in m.unknown_keys() if k not in m.indep_keys()][:1]
    if not of:
        return
    pt = place(m, spec['plant'], [ci for ci, c in enumerate(m.comps) if c['kind'] in ('lin', 'mf')])
    if pt:
        pt = pt[:6] + ('both',)
    apply_plant(m, pt)
    red = spec['red'] and spec['dv'] and spec['resp']

    def configure(node, g):
        if node['_path'] == ():
            g.deriv_options['check_form'] = spec['form']
            g.deriv_options['check_step_size'] = 1e-6
            g.ln_solver.options['single_voi_relevance_reduction'] = red
            g.ln_solver.options['mode'] = spec['mode']

    def hook(prob):
        for k in wrt if spec['dv'] else ():
            prob.driver.add_desvar(m.root_name(k))
        for j, k in enumerate(of if spec['resp'] else ()):
            if j == 0:
                prob.driver.add_objective(m.root_name(k))
            else:
                prob.driver.add_constraint(m.root_name(k), upper=0.0)
    prob = m.build(configure=configure, problem_hook=hook)
    if spec['run']:
        prob.run()
    inputs = m.input_defaults()
    U = m.ref_values(inputs)
    S = m.ref_totals(U, inputs)
    J = m.ref_jacobian(U, inputs)
    if pt:
        ci, (oi, t, k), key, r, col, delta, _ = pt
        p = m.comps[ci]['ins'][k]
        sa, sb = m.off[tuple(p['src'])]
        j = sa + (col if p['idx'] is None else p['idx'][col])
        J[m.off[(ci, oi)][0] + r, j] += delta * conv(m.out(p['src'])['u'], p['u'])[0]
        log.label('planted')
    P = np.linalg.inv(-J)
    if not spec['dv']:
        wrt = connected_indeps(m)
    if not spec['resp']:
        of = [k for k in m.unknown_keys()]
    out = io.StringIO() if spec['out'] else None
    data = prob.check_total_derivatives(out_stream=out)
    tol = 1e-3 if spec['form'] != 'central' else 2e-4
    got = dict(data)
    n = 0
    for o in of:
        for w in wrt:
            key = (m.root_name(o), m.root_name(w))
            if not spec['resp'] and key not in got and m.comps[o[0]]['kind'] == 'indep':
                continue
            what = 'total d %s / d %s' % key
            check(key in got, '%s is missing from the report (%s)', what, sorted(got))
            d = got.pop(key)
            Jt, Ju = ref_block(m, S, o, w), ref_block(m, P, o, w)
            if np.max(np.abs(Jt - Ju)) > 1e-3:
                log.label('planted error visible')
            n += bool(np.any(Jt))
            if red:
                check_block(d['J_fd'], Jt, what + ' J_fd', tol)
                name = [x for x in ('J_fwd', 'J_rev') if x in d]
                check(len(name) == 1, '%s: relevance reduction reports %s', what, sorted(d))
                check_block(d[name[0]], Ju, what + ' ' + name[0], 1e-6)
            else:
                check_entry2(d, Jt, Ju, tol, what)
    for key in got:
        check(key[0] in [m.root_name(k) for k in m.unknown_keys()], 'unexpected pair %s in the report', key)
        if spec['dv']:
            check(key[1] in [m.root_name(k) for k in wrt], 'unexpected input %s in the report', key)
    log.nontrivial(n > 0)
    m.check_values(prob, U, inputs, 1e-9, 1e-9, 'after the check: ', params=False)


def check_entry2(d, Jt, Ju, tol, what):
    check_block(d['J_fd'], Jt, what + ' J_fd', tol)
    check_block(d['J_fwd'], Ju, what + ' J_fwd', 1e-6)
    check_block(d['J_rev'], Ju, what + ' J_rev', 1e-6)
    slack = tol * (1.0 + max(np.max(np.abs(Jt)), np.max(np.abs(Ju)))) * Jt.size ** 0.5
    e = np.linalg.norm(Ju - Jt)
    check_close(d['abs error'], [e, e, 0.0], what + ' abs error', 0, slack)
    check_close(d['magnitude'], [np.linalg.norm(d['J_fwd']), np.linalg.norm(d['J_rev']), np.linalg.norm(d['J_fd'])],
                what + ' magnitude', 1e-8, 1e-12)
    mag = np.linalg.norm(d['J_fd'])
    if mag > 0:
        check_close(d['rel error'], np.array(d['abs error']) / mag, what + ' rel error', 1e-8, 1e-12)


FACETS = [
    Facet('partials', partials, run_partials, 700,
          rule='random models, check_partial_derivatives at two points with random options and possibly one wrong '
               'Jacobian entry; non-trivial: at least one pair of a component with user derivatives was compared'),
    Facet('totals', totals, run_totals, 600,
          rule='check_total_derivatives, with/without declared design variables and responses, relevance reduction, '
               'one wrong partial entry; non-trivial: some total is non-zero'),
]
