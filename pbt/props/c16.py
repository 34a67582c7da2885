"""C16: ExecComp computes its expressions and their exact derivatives."""
import copy
import pickle

import numpy as np
from hypothesis import strategies as st
from scipy import special

from pbt.core import Facet, check, check_close

ASSUMPTIONS = ['comparisons and functions without a complex version (floor, atan2, fabs, ...) are outside the differentiable '
               'grammar: only their values are judged',
               'the complex step of 1e-6 is exact to 1e-5 where values and slopes inside the expression stay below 300 '
               'and arguments stay 0.05 away from the edges of a function\'s domain']

NAMES = ['x', 'y', 'z', 'x1', 'xx', 'xy', 'a:b', 'a:b:c', 'a0b0c', 'a:b0c', 'a0b', 'b', 'b:c', 'a', 'v_1', 'sinx', 'ex', 'e_1',
         'pix', '_q', 'x:y', 'loads', 'z2:y_1', 'B']
SHAPES = [None, None, (2,), (3,), (3,), (1,), (2, 3), (2, 1, 2)]
CONSTS = ['2', '0.5', '.25', '3.', '1e-1', '2.5e0', '1E0', '12e-1', '1E-1', '2e1', '-1.5', '4e-01', '1.0e+0']
SMOOTH = {'sin': (np.sin, np.cos), 'cos': (np.cos, lambda x: -np.sin(x)), 'tanh': (np.tanh, lambda x: 1 / np.cosh(x) ** 2),
          'exp': (np.exp, np.exp), 'sinh': (np.sinh, np.cosh), 'cosh': (np.cosh, np.sinh),
          'atan': (np.arctan, lambda x: 1 / (1 + x * x)), 'arctan': (np.arctan, lambda x: 1 / (1 + x * x)),
          'asinh': (np.arcsinh, lambda x: 1 / np.sqrt(1 + x * x)), 'arcsinh': (np.arcsinh, lambda x: 1 / np.sqrt(1 + x * x)),
          'expm1': (np.expm1, np.exp), 'erf': (special.erf, lambda x: 2 / np.sqrt(np.pi) * np.exp(-x * x)),
          'erfc': (special.erfc, lambda x: -2 / np.sqrt(np.pi) * np.exp(-x * x)),
          'numpy.square': (np.square, lambda x: 2 * x), 'numpy.negative': (np.negative, lambda x: -1 + 0 * x)}
# name: (value, slope, lower edge, upper edge)
DOMAIN = {'log': (np.log, lambda x: 1 / x, 0, None), 'log10': (np.log10, lambda x: 1 / (x * np.log(10)), 0, None),
          'log1p': (np.log1p, lambda x: 1 / (1 + x), -1, None), 'sqrt': (np.sqrt, lambda x: .5 / np.sqrt(x), 0, None),
          'gamma': (special.gamma, lambda x: special.gamma(x) * special.psi(x), 0, None),
          'asin': (np.arcsin, lambda x: 1 / np.sqrt(1 - x * x), -1, 1),
          'arcsin': (np.arcsin, lambda x: 1 / np.sqrt(1 - x * x), -1, 1),
          'acos': (np.arccos, lambda x: -1 / np.sqrt(1 - x * x), -1, 1),
          'arccos': (np.arccos, lambda x: -1 / np.sqrt(1 - x * x), -1, 1),
          'acosh': (np.arccosh, lambda x: 1 / np.sqrt(x * x - 1), 1, None),
          'arccosh': (np.arccosh, lambda x: 1 / np.sqrt(x * x - 1), 1, None),
          'atanh': (np.arctanh, lambda x: 1 / (1 - x * x), -1, 1), 'arctanh': (np.arctanh, lambda x: 1 / (1 - x * x), -1, 1),
          'tan': (np.tan, lambda x: 1 / np.cos(x) ** 2, -1.4, 1.4)}
VALUE_ONLY = {'floor': np.floor, 'ceil': np.ceil, 'trunc': np.trunc, 'fabs': np.fabs, 'degrees': np.degrees,
              'radians': np.radians}
VALUE_ONLY2 = {'atan2': np.arctan2, 'arctan2': np.arctan2, 'hypot': np.hypot, 'fmod': np.fmod, 'copysign': np.copysign}
REDUCE = ['numpy.sum', 'numpy.mean', 'numpy.prod', 'numpy.dot']


class Skip(Exception):
    pass


class D:
    """value with derivatives with respect to all inputs (last axis)."""
    def __init__(self, v, d):
        self.v = np.asarray(v, float)
        self.d = d
        if not np.all(np.isfinite(self.v)) or np.abs(self.v).max(initial=0) > 300 or np.abs(d).max(initial=0) > 300:
            raise Skip()


# ------------------------------------------------------------------ generation

@st.composite
def exprs(draw, vs, shape, depth, novalue):
    """AST whose value has the given shape (None: scalar); vs: {name: shape}."""
    same = [n for n in sorted(vs) if vs[n] == shape]
    k = draw(st.integers(0, 11)) if depth else draw(st.integers(0, 3))
    sub = lambda s=shape: exprs(vs, s, depth - 1, novalue)
    if k <= 3:
        if shape is None:
            arrays = [n for n in sorted(vs) if vs[n] is not None]
            if arrays and (not same or draw(st.integers(0, 2)) == 0):
                n = draw(st.sampled_from(arrays))
                return ['i', n, [draw(st.integers(-m, m - 1)) for m in vs[n]]]
            if same and draw(st.integers(0, 3)):
                return ['v', draw(st.sampled_from(same))]
            return ['c', draw(st.sampled_from(CONSTS + ['pi', 'e', 'numpy.pi']))]
        if same:
            return ['v', draw(st.sampled_from(same))]
        k = 4
    if k <= 7 and depth == 0:
        return ['c*', draw(st.sampled_from(CONSTS)), list(shape)]
    if k <= 6:
        op = draw(st.sampled_from('+-*/'))
        a, b = shape, shape
        if shape is not None:
            a, b = draw(st.sampled_from([(shape, shape), (shape, None), (None, shape)]))
        x, y = draw(sub(a)), draw(sub(b))
        return ['op', op, x, y]
    if k == 7:
        if draw(st.integers(0, 2)):
            return ['^', draw(sub()), draw(st.sampled_from([2, 3, -1, -2]))]
        return ['pow', draw(st.sampled_from(['**', 'pow', 'power', 'numpy.power'])), ['safe', 'log', draw(sub())], draw(sub())]
    if k == 8:
        f = draw(st.sampled_from(sorted(SMOOTH)))
        return ['f', f, draw(sub())]
    if k == 9:
        f = draw(st.sampled_from(sorted(DOMAIN)))
        x = draw(sub())
        return ['f', f, ['safe', f, x] if draw(st.integers(0, 3)) else x]
    if k == 10:
        if not novalue and draw(st.integers(0, 2)) == 0:
            f = draw(st.sampled_from(sorted(VALUE_ONLY) + sorted(VALUE_ONLY2)))
            return ['vo', f, draw(sub())] + ([draw(sub())] if f in VALUE_ONLY2 else [])
        return ['f', 'abs', draw(sub())]
    arrays = sorted(set(s for s in vs.values() if s is not None))
    if shape is None and arrays:
        s = draw(st.sampled_from(arrays))
        f = draw(st.sampled_from(REDUCE))
        if f == 'numpy.dot':
            if len(s) > 1:
                f = 'numpy.sum'
            else:
                return ['dot', draw(exprs(vs, s, depth - 1, novalue)), draw(exprs(vs, s, depth - 1, novalue))]
        return ['red', f, draw(exprs(vs, s, depth - 1, novalue))]
    return ['neg', draw(sub())]


@st.composite
def specs(draw, novalue=True):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=2, max_size=7, unique=True))
    nout = draw(st.integers(1, min(3, len(names) - 1)))
    outs, ins = names[:nout], names[nout:]
    shapes = dict((n, draw(st.sampled_from(SHAPES))) for n in names)
    vals = {}
    mag = st.sampled_from([-2., -1.3, -.7, -.4, -.25, .3, .5, .8, 1., 1.1, 1.7, 2.])
    for n in names:
        s = shapes[n]
        size = 1 if s is None else int(np.prod(s))
        vals[n] = [draw(mag) for _ in range(size)]
    vals2 = dict((n, [draw(mag) for _ in vals[n]]) for n in ins)
    lines = []
    known = list(ins)
    for n in outs:
        for _ in range(draw(st.sampled_from([1, 1, 1, 2]))):
            vs = dict((m, shapes[m]) for m in known)
            s = shapes[n]
            kind = draw(st.sampled_from(['all', 'all', 'idx', 'slice', 'spread'])) if s is not None else 'all'
            if kind == 'idx':
                lhs = [draw(st.integers(-m, m - 1)) for m in s]
                rhs = draw(exprs(vs, None, 2, novalue))
            elif kind == 'slice':
                a = draw(st.integers(0, s[0] - 1))
                lhs = ['slice', a, draw(st.sampled_from([None, s[0]]))]
                rhs = draw(exprs(vs, None, 2, novalue))
            elif kind == 'spread':
                # a NumPy scalar given to an array output
                lhs = 'spread'
                arrays = sorted(set(t for t in (shapes[m] for m in known) if t is not None))
                if not arrays:
                    lhs, rhs = 'all', draw(exprs(vs, s, 3, novalue))
                else:
                    rhs = ['red', 'numpy.sum', draw(exprs(vs, draw(st.sampled_from(arrays)), 1, novalue))]
            else:
                lhs = 'all'
                rhs = draw(exprs(vs, s, 3, novalue))
            lines.append([n, lhs, rhs])
            # what is not assigned keeps its last value, so a later line must not build on it
            if draw(st.booleans()) and n not in known and lines[-1][1] in ('all', 'spread'):
                known.append(n)
        if n not in known:
            known.append(n)
    used = set()
    for n, lhs, rhs in lines:
        used |= set(variables(rhs))
    units = {}
    conn = []
    for n in ins:
        if n in used and draw(st.booleans()):
            conn.append(n)
            if draw(st.booleans()):
                units[n] = draw(st.sampled_from([['ft', 'm'], ['m', 'ft'], ['inch', 'cm'], ['degC', 'degF']]))
    return dict(shapes=dict((n, list(s) if s is not None else None) for n, s in shapes.items() if n in used or n in outs),
                outs=outs, lines=lines, vals=dict((n, v) for n, v in vals.items() if n in used or n in outs),
                vals2=dict((n, v) for n, v in vals2.items() if n in used), conn=conn, units=units,
                outunits=[n for n in outs if draw(st.integers(0, 3)) == 0], space=draw(st.integers(0, 2)),
                container=draw(st.sampled_from(['list', 'list', 'tuple', 'str'])), kw=draw(st.sampled_from(['kw', 'inits', 'mix'])),
                clone=draw(st.sampled_from([None, None, 'pickle', 'deepcopy'])), obj=draw(st.sampled_from([None, None, 'int', 'list'])),
                grads=[draw(st.sampled_from(['fwd', 'rev'])) for _ in range(draw(st.integers(0, 2)))])


def variables(t):
    if t[0] in ('v', 'i'):
        return [t[1]]
    out = []
    for x in t[1:]:
        if isinstance(x, list) and x and isinstance(x[0], str):
            out += variables(x)
    return out


# ------------------------------------------------------------------ text and oracle

SAFE = {'log': '(1.5+tanh(%s))', 'log10': '(1.5+tanh(%s))', 'log1p': '(0.5+tanh(%s))', 'sqrt': '(1.5+tanh(%s))',
        'gamma': '(2.5+tanh(%s))', 'acosh': '(2.5+tanh(%s))', 'arccosh': '(2.5+tanh(%s))'}
SAFEVAL = {'(1.5+tanh(%s))': 1.5, '(0.5+tanh(%s))': .5, '(2.5+tanh(%s))': 2.5}


def text(t, sp):
    s = ' ' * sp
    k = t[0]
    if k == 'v':
        return t[1]
    if k == 'i':
        return '%s[%s]' % (t[1], ','.join(str(i) for i in t[2]))
    if k == 'c':
        return '(%s)' % t[1]
    if k == 'c*':
        return '(%s%s*%snumpy.ones((%s,)))' % (t[1], s, s, ','.join(str(i) for i in t[2]))
    if k == 'op':
        return '(%s%s%s%s%s)' % (text(t[2], sp), s, t[1], s, text(t[3], sp))
    if k == '^':
        return '(%s%s**%s%d)' % (text(t[1], sp), s, s, t[2])
    if k == 'pow':
        a, b = text(t[2], sp), text(t[3], sp)
        return '(%s%s**%s%s)' % (a, s, s, b) if t[1] == '**' else '%s(%s,%s%s)' % (t[1], a, s, b)
    if k == 'safe':
        return SAFE.get(t[1], '(0.7*tanh(%s))') % text(t[2], sp)
    if k == 'f':
        return '%s%s(%s%s)' % (t[1], ' ' * (sp == 2 and '.' not in t[1]), s, text(t[2], sp))
    if k == 'vo':
        return '%s(%s)' % (t[1], ','.join(text(x, sp) for x in t[2:]))
    if k == 'red':
        return '%s(%s)' % (t[1], text(t[2], sp))
    if k == 'dot':
        return 'numpy.dot(%s,%s%s)' % (text(t[1], sp), s, text(t[2], sp))
    if k == 'neg':
        return '(-%s)' % text(t[1], sp)
    raise AssertionError(k)


def line_text(line, sp):
    n, lhs, rhs = line
    s = ' ' * sp
    if lhs in ('all', 'spread'):
        left = n
    elif lhs[0] == 'slice':
        left = '%s[%d:%s]' % (n, lhs[1], '' if lhs[2] is None else lhs[2])
    else:
        left = '%s[%s]' % (n, ','.join(str(i) for i in lhs))
    return '%s%s=%s%s' % (left, s, s, text(rhs, sp))


def chain(x, f, g):
    with np.errstate(all='ignore'):
        return D(f(x.v), np.asarray(g(x.v))[..., None] * x.d)


def ev(t, env, nin):
    k = t[0]
    zero = lambda v: D(v, np.zeros(np.shape(v) + (nin,)))
    if k == 'v':
        return env[t[1]]
    if k == 'i':
        x = env[t[1]]
        i = tuple(t[2])
        return D(x.v[i], x.d[i])
    if k == 'c':
        return zero({'pi': np.pi, 'e': np.e, 'numpy.pi': np.pi}[t[1]] if t[1][-1].isalpha() else float(t[1]))
    if k == 'c*':
        return zero(float(t[1]) * np.ones(t[2]))
    if k == 'op':
        a, b = ev(t[2], env, nin), ev(t[3], env, nin)
        av, bv = a.v[..., None], b.v[..., None]
        if t[1] == '+':
            return D(a.v + b.v, a.d + b.d)
        if t[1] == '-':
            return D(a.v - b.v, a.d - b.d)
        if t[1] == '*':
            return D(a.v * b.v, a.d * bv + av * b.d)
        if np.abs(b.v).min(initial=1) < .05:
            raise Skip()
        return D(a.v / b.v, a.d / bv - av * b.d / bv ** 2)
    if k == '^':
        a = ev(t[1], env, nin)
        if t[2] < 0 and np.abs(a.v).min(initial=1) < .1:
            raise Skip()
        return chain(a, lambda x: x ** float(t[2]), lambda x: t[2] * x ** float(t[2] - 1))
    if k == 'pow':
        a, b = ev(t[2], env, nin), ev(t[3], env, nin)
        return D(a.v ** b.v, (b.v * a.v ** (b.v - 1))[..., None] * a.d + (a.v ** b.v * np.log(a.v))[..., None] * b.d)
    if k == 'safe':
        a = chain(ev(t[2], env, nin), *SMOOTH['tanh'])
        if t[1] in SAFE:
            return D(a.v + SAFEVAL[SAFE[t[1]]], a.d)
        return D(a.v * .7, a.d * .7)
    if k == 'f':
        a = ev(t[2], env, nin)
        if t[1] == 'abs':
            if np.abs(a.v).min(initial=1) < 1e-3:
                raise Skip()
            return chain(a, np.abs, np.sign)
        if t[1] in SMOOTH:
            return chain(a, *SMOOTH[t[1]])
        f, g, lo, hi = DOMAIN[t[1]]
        if (lo is not None and a.v.min(initial=9) < lo + .05) or (hi is not None and a.v.max(initial=-9) > hi - .05):
            raise Skip()
        return chain(a, f, g)
    if k == 'vo':
        xs = [ev(x, env, nin).v for x in t[2:]]
        for x in xs:
            if t[1] in ('floor', 'ceil', 'trunc', 'fmod') and np.abs(x - np.round(x)).min(initial=1) < 1e-6:
                raise Skip()
        if t[1] == 'fmod' and (np.abs(xs[1]).min(initial=1) < .1 or
                               np.abs(xs[0] / xs[1] - np.round(xs[0] / xs[1])).min(initial=1) < 1e-6):
            raise Skip()
        if t[1] in ('copysign', 'atan2', 'arctan2') and np.abs(xs[1]).min(initial=1) < 1e-6:
            raise Skip()
        if t[1] in ('atan2', 'arctan2') and np.abs(xs[0]).min(initial=1) < 1e-6:
            raise Skip()
        return zero((VALUE_ONLY.get(t[1]) or VALUE_ONLY2[t[1]])(*xs))
    if k == 'red':
        a = ev(t[2], env, nin)
        d = a.d.reshape(-1, nin)
        if t[1] == 'numpy.sum':
            return D(a.v.sum(), d.sum(0))
        if t[1] == 'numpy.mean':
            return D(a.v.mean(), d.mean(0))
        v = a.v.ravel()
        return D(v.prod(), sum(np.prod(np.delete(v, i)) * d[i] for i in range(v.size)))
    if k == 'dot':
        a, b = ev(t[1], env, nin), ev(t[2], env, nin)
        return D(a.v.dot(b.v), a.v.dot(b.d) + b.v.dot(a.d))
    if k == 'neg':
        a = ev(t[1], env, nin)
        return D(-a.v, -a.d)
    raise AssertionError(k)


def oracle(spec, xs, outs0):
    """outputs and their derivatives with respect to the flattened inputs (sorted by name)."""
    ins = sorted(xs)
    nin = sum(np.size(xs[n]) for n in ins)
    env, k = {}, 0
    for n in ins:
        v = np.asarray(xs[n], float)
        d = np.zeros((v.size, nin))
        d[:, k:k + v.size] = np.eye(v.size)
        k += v.size
        env[n] = D(v, d.reshape(v.shape + (nin,)))
    for n in spec['outs']:
        v = np.asarray(outs0[n], float)
        env[n] = D(v, np.zeros(v.shape + (nin,)))
    for n, lhs, rhs in spec['lines']:
        r = ev(rhs, env, nin)
        o = env[n]
        v, d = o.v.copy(), o.d.copy()
        if lhs in ('all', 'spread'):
            v[...] = r.v
            d[...] = r.d
        else:
            i = slice(lhs[1], lhs[2]) if lhs[0] == 'slice' else tuple(lhs)
            v[i] = r.v
            d[i] = r.d
        env[n] = D(v, d)
    return env


def value(vals, shape):
    return float(vals[0]) if shape is None else np.array(vals, float).reshape(shape)


FACTOR = {('ft', 'm'): (1 / .3048, 0), ('m', 'ft'): (.3048, 0), ('inch', 'cm'): (1 / 2.54, 0), ('degC', 'degF'): (5 / 9., -32 * 5 / 9.)}


def run(spec, log, derivs=True):
    from openmdao.api import ExecComp, Group, IndepVarComp, Problem
    shapes = spec['shapes']
    ins = sorted(n for n in shapes if n not in spec['outs'])
    if not ins:
        return
    lines = [line_text(l, spec['space']) for l in spec['lines']]
    known, units = {}, {}
    for n in shapes:
        known[n] = value(spec['vals'][n], shapes[n])
    for n, (u, _) in spec['units'].items():
        if n in ins:
            units[n] = u
    for n in spec['outunits']:
        units[n] = 'kg'
    if spec['obj'] and len(spec['lines']):
        # a value that is not differentiable, multiplied in
        n, lhs, rhs = spec['lines'][-1]
        lines[-1] += '*nobj' if spec['obj'] == 'int' else '*lobj[0]'
    exprs_ = lines if len(lines) > 1 or spec['container'] != 'str' else lines[0]
    if spec['container'] == 'tuple' and not isinstance(exprs_, str):
        exprs_ = tuple(exprs_)
    given = list(exprs_) if not isinstance(exprs_, str) else exprs_
    kw, inits = {}, {}
    for i, n in enumerate(sorted(shapes)):
        if ':' in n or spec['kw'] == 'inits' or (spec['kw'] == 'mix' and i % 2):
            inits[n] = known[n]
        else:
            kw[n] = known[n]
    if spec['obj'] == 'int':
        kw['nobj'] = 3
    elif spec['obj'] == 'list':
        kw['lobj'] = [3.0, 'text']
    ucopy, icopy = dict(units), sorted(inits)
    comp = ExecComp(exprs_, inits=inits or None, units=units or None, **kw)
    check(units == ucopy and sorted(inits) == icopy and (list(exprs_) if not isinstance(exprs_, str) else exprs_) == given,
          'ExecComp changed the arguments it was given')
    if spec['clone'] == 'pickle':
        comp = pickle.loads(pickle.dumps(comp))
    elif spec['clone'] == 'deepcopy':
        comp = copy.deepcopy(comp)
    allin = sorted(list(ins) + (['nobj'] if spec['obj'] == 'int' else ['lobj'] if spec['obj'] else []))
    check(sorted(comp._init_params_dict) == allin, 'inputs of ExecComp(%r) are %s, expected %s', given, sorted(comp._init_params_dict), allin)
    check(sorted(comp._init_unknowns_dict) == sorted(spec['outs']), 'outputs of ExecComp(%r) are %s, expected %s', given,
          sorted(comp._init_unknowns_dict), sorted(spec['outs']))
    for n in shapes:
        m = comp._init_unknowns_dict.get(n) or comp._init_params_dict.get(n)
        check(m.get('units') == units.get(n), 'variable %s of ExecComp(%r, units=%s) has units %s', n, given, units, m.get('units'))
        check_close(m['val'], known[n], 'initial value of %s' % n, 0, 0)
    prob = Problem(root=Group())
    root = prob.root
    root.add('c', comp)
    conn = [n for n in spec['conn'] if n in ins]
    factor = {}
    for i, n in enumerate(conn):
        u = spec['units'].get(n)
        factor[n] = FACTOR[tuple(u)] if u else (1., 0.)
        f, off = factor[n]
        root.add('p%d' % i, IndepVarComp('v', (known[n] - off) / f, **({'units': u[1]} if u else {})))
        root.connect('p%d.v' % i, 'c.' + n)
    prob.setup(check=False)
    if spec['obj']:
        grads = []
    else:
        grads = spec['grads'] if conn else []
    outs0 = dict((n, known[n]) for n in spec['outs'])
    log.label('%d lines' % len(lines))
    for point in ('vals', 'vals2'):
        xs = dict((n, value(spec[point][n], shapes[n])) for n in ins)
        for i, n in enumerate(conn):
            f, off = factor[n]
            prob['p%d.v' % i] = (xs[n] - off) / f
        for n in ins:
            if n not in conn:
                prob['c.' + n] = xs[n]
        sobj = dict(spec)
        if spec['obj']:
            n, lhs, rhs = spec['lines'][-1]
            sobj['lines'] = spec['lines'][:-1] + [[n, lhs, ['op', '*', rhs, ['c', '3.']]]]
        try:
            env = oracle(sobj, xs, outs0)
        except Skip:
            log.label('skipped: out of domain')
            return
        prob.run()
        for n in spec['outs']:
            check_close(np.asarray(prob['c.' + n]), env[n].v, 'value of %s in ExecComp(%r) at %s' % (n, given, xs), 1e-8, 1e-9)
            check(np.shape(prob['c.' + n]) == np.shape(known[n]), 'shape of %s changed to %s', n, np.shape(prob['c.' + n]))
        outs0 = dict((n, env[n].v) for n in spec['outs'])
        log.nontrivial(point == 'vals2')
        if not derivs:
            continue
        params, unknowns, resids = comp.params, comp.unknowns, comp.resids
        before = dict((n, np.array(params[n])) for n in ins), dict((n, np.array(unknowns[n])) for n in spec['outs'])
        J = comp.linearize(params, unknowns, resids)
        for n in ins:
            check_close(np.asarray(params[n]), before[0][n], 'input %s after linearize of ExecComp(%r)' % (n, given), 0, 0)
        for n in spec['outs']:
            check_close(np.asarray(unknowns[n]), before[1][n], 'output %s after linearize' % n, 0, 0)
        k = 0
        for p in ins:
            size = np.size(xs[p])
            for o in spec['outs']:
                want = env[o].d.reshape(-1, env[o].d.shape[-1])[:, k:k + size]
                got = J.get((o, p))
                if got is None:
                    check(not want.any(), 'ExecComp(%r) has no derivative of %s with respect to %s, expected %s', given, o, p, want)
                    continue
                check(np.shape(got) == want.shape, 'd%s/d%s of ExecComp(%r) has shape %s, expected %s', o, p, given, np.shape(got), want.shape)
                check_close(got, want, 'd%s/d%s of ExecComp(%r) at %s' % (o, p, given, xs), 1e-5, 1e-6)
            k += size
        for mode in grads:
            got = prob.calc_gradient(['p%d.v' % i for i in range(len(conn))], ['c.' + n for n in spec['outs']], mode=mode,
                                     return_format='dict')
            for o in spec['outs']:
                for i, p in enumerate(conn):
                    k = sum(np.size(xs[q]) for q in ins if q < p)
                    want = env[o].d.reshape(-1, env[o].d.shape[-1])[:, k:k + np.size(xs[p])] * factor[p][0]
                    check_close(got['c.' + o]['p%d.v' % i], want, '%s total of %s wrt %s in ExecComp(%r)' % (mode, o, p, given), 1e-5, 1e-6)
            log.label('total ' + mode)
    for l in lines:
        if ':' in l:
            log.label('colon name')
            break
    if any(l[1] not in ('all',) for l in spec['lines']):
        log.label('partial or broadcast assignment')


def run_values(spec, log):
    return run(spec, log, derivs=False)


@st.composite
def bad_specs(draw):
    s = draw(specs())
    return dict(spec=s, kind=draw(st.sampled_from(['kwarg', 'init', 'units', 'none'])),
                name=draw(st.sampled_from(['qq', 'x_', 'xyz', 'a', 'sin', 'c', 'b:c'])))


def run_bad(spec, log):
    from openmdao.api import ExecComp
    s = spec['spec']
    lines = [line_text(l, s['space']) for l in s['lines']]
    kw, inits, units = {}, {}, {}
    for n in s['shapes']:
        inits[n] = value(s['vals'][n], s['shapes'][n])
    name = spec['name']
    bad = name not in s['shapes'] and spec['kind'] != 'none'
    if spec['kind'] == 'kwarg':
        if name in inits:
            return
        kw[name] = 1.0
    elif spec['kind'] == 'init':
        inits.setdefault(name, 1.0)
    elif spec['kind'] == 'units':
        units[name] = 'm'
    try:
        ExecComp(lines, inits=inits, units=units, **kw)
    except RuntimeError as err:
        check(bad, 'ExecComp(%r, %s %s) was refused: %s', lines, spec['kind'], name, err)
        check(name in str(err), 'the error for unknown name %r does not name it: %s', name, err)
        log.label('refused ' + spec['kind'])
    else:
        check(not bad, 'ExecComp(%r) accepted %s for %r, which is in no expression', lines, spec['kind'], name)
        log.label('accepted')
    log.nontrivial()


FACETS = [
    Facet('expressions', lambda: specs(True), run, quick=1500, thorough=20000,
          rule='values and Jacobian compared at two points inside the domain of the expressions'),
    Facet('values', lambda: specs(False), run_values, quick=800, thorough=10000, rule='values compared at two points'),
    Facet('metadata', bad_specs, run_bad, quick=400, thorough=4000, rule='construction accepted or refused by the oracle'),
]
