"""C31: declarations that make no sense are refused and change nothing; sound ones take effect as declared."""
import copy
import re
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt.core import Facet, check

ASSUMPTIONS = ['names are ASCII; a valid name is an identifier, or several joined with colons',
               'bounds are given unscaled and read back as (bound + adder) * scaler, smallest first']

NAME = re.compile(r'[_a-zA-Z][_a-zA-Z0-9]*(:[_a-zA-Z][_a-zA-Z0-9]*)*\Z')


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b)
    return type(a) is type(b) and (a is b or a == b)


# ------------------------------------------------------------------ drivers

DRIVERS = ['base', 'SLSQP', 'COBYLA', 'doe', 'custom']
# what can be named in the model that the declarations are about
MODEL = {'x': 3, 'w': 1, 'c.y': 3, 'c.s': 1, 'c.obj': None, 'nope': None}
NAMES = ['x', 'x', 'w', 'w', 'c.y', 'c.y', 'c.s', 'c.s', 'c.obj', 'nope']
NUM = st.sampled_from([-2.5, -1., 0., .5, 1., 3.])
SCALE = st.sampled_from([1.0, 1.0, 2.0, -4.0, .5])


@st.composite
def declarations(draw):
    drv = draw(st.sampled_from(DRIVERS))
    op = st.one_of(
        st.tuples(st.just('desvar'), st.sampled_from(['x', 'w', 'x', 'w', 'x', 'w'] + NAMES), st.one_of(st.none(), NUM), st.one_of(st.none(), NUM),
                  NUM, SCALE, st.sampled_from([None, None, [0], [2, 0], []])),
        st.tuples(st.just('objective'), st.sampled_from(NAMES), NUM, SCALE, st.sampled_from([None, None, [0], [2, 0], []])),
        st.tuples(st.just('constraint'), st.sampled_from(NAMES), st.one_of(st.none(), NUM), st.one_of(st.none(), NUM), st.one_of(st.none(), st.none(), NUM),
                  NUM, SCALE, st.sampled_from([None, None, [0], [1, 2]])),
        st.tuples(st.just('group'), st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True)))
    ops = [list(o) for o in draw(st.lists(op, min_size=1, max_size=12))]
    for o in ops:
        if o[0] in ('desvar', 'constraint') and o[2] is not None and o[3] is not None:
            o[2:4] = sorted(o[2:4])
    return dict(driver=drv, ops=ops, supports=draw(st.lists(st.booleans(), min_size=4, max_size=4)),
                gradients=draw(st.booleans()))


def make_driver(spec):
    from openmdao.api import Driver, ScipyOptimizer, UniformDriver
    d = spec['driver']
    if d == 'base':
        return Driver()
    if d == 'doe':
        return UniformDriver(num_samples=1)
    if d == 'custom':
        class Custom(Driver):
            def __init__(self):
                super(Custom, self).__init__()
                for n, v in zip(['inequality_constraints', 'equality_constraints', 'two_sided_constraints', 'multiple_objectives'], spec['supports']):
                    self.supports[n] = v
                self.supports['gradients'] = spec['gradients']
        return Custom()
    drv = ScipyOptimizer()
    drv.options['optimizer'] = d
    drv.options['disp'] = False
    return drv


def run_declarations(spec, log):
    from openmdao.api import Problem, Group, IndepVarComp, Component
    drv = make_driver(spec)
    have = dict((k, drv.supports[k]) for k in ('inequality_constraints', 'equality_constraints', 'two_sided_constraints', 'multiple_objectives', 'gradients'))
    des, objs, cons = {}, {}, {}
    refused = 0
    for op in spec['ops']:
        before = copy.deepcopy((drv._desvars, drv._objs, drv._cons, drv._voi_sets))
        kind, name = op[0], op[1]
        bad = None
        if kind == 'desvar':
            _, _, lo, up, adder, scaler, idx = op
            if name in des:
                bad = 'already exists'
            call = lambda: drv.add_desvar(name, lower=lo, upper=up, adder=adder, scaler=scaler, indices=idx)
        elif kind == 'objective':
            _, _, adder, scaler, idx = op
            if objs and not have['multiple_objectives']:
                bad = 'multiple objectives'
            elif name in objs:
                bad = 'already exists'
            elif idx and len(idx) > 1 and not have['multiple_objectives']:
                bad = 'objective indices'
            call = lambda: drv.add_objective(name, adder=adder, scaler=scaler, indices=idx)
        elif kind == 'constraint':
            _, _, lo, up, eq, adder, scaler, idx = op
            if name in cons:
                bad = 'already exists'
            elif eq is not None and (lo is not None or up is not None):
                bad = 'both equality and inequality'
            elif eq is not None and not have['equality_constraints']:
                bad = 'not support equality'
            elif eq is None and not have['inequality_constraints']:
                bad = 'not support inequality'
            elif lo is not None and up is not None and not have['two_sided_constraints']:
                bad = '2-sided'
            elif lo is None and up is None and eq is None:
                bad = 'needs to define'
            call = lambda: drv.add_constraint(name, lower=lo, upper=up, equals=eq, adder=adder, scaler=scaler, indices=idx)
        else:
            kinds = [n in des for n in name]
            if any(n not in des and n not in objs and n not in cons for n in name):
                bad = 'is not a param'
            elif any(kinds) and not all(kinds):
                bad = 'cannot be grouped'
            call = lambda: drv.parallel_derivs(name)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                call()
        except RuntimeError as err:
            check(bad is not None, '%s was refused: %s', op, err)
            check(bad in str(err), '%s was refused with %r, expected %r', op, str(err), bad)
            refused += 1
            after = (drv._desvars, drv._objs, drv._cons, drv._voi_sets)
            check(all(same(dict(a), dict(b)) if isinstance(a, dict) else a == b for a, b in zip(before, after)),
                  '%s was refused, but the declarations changed from %s to %s', op, before, after)
            log.label('refused: ' + bad)
            continue
        check(bad is None, '%s was accepted (%s; driver supports %s)', op, bad, have)
        if kind == 'desvar':
            des[name] = op
        elif kind == 'objective':
            objs[name] = op
        elif kind == 'constraint':
            cons[name] = op

    def compare(when):
        got = drv.get_desvar_metadata()
        check(list(got) == list(des), '%s the design variables are %s, declared: %s', when, list(got), list(des))
        for n, (_, _, lo, up, adder, scaler, idx) in des.items():
            m = got[n]
            check(m['adder'] == adder and m['scaler'] == scaler and list(m.get('indices', ())) == list(idx or ()), '%s %s is %s, declared %s', when, n, m, des[n])
            a, b = (None if lo is None else (lo + adder) * scaler), (None if up is None else (up + adder) * scaler)
            if scaler < 0:
                a, b = b, a
            check((m['lower'] == a if a is not None else m['lower'] <= -1e300) and (m['upper'] == b if b is not None else m['upper'] >= 1e300),
                  '%s bounds of %s are %s, %s, expected %s, %s', when, n, m['lower'], m['upper'], a, b)
        got = drv.get_constraint_metadata()
        check(list(got) == list(cons), '%s the constraints are %s, declared: %s', when, list(got), list(cons))
        for n, (_, _, lo, up, eq, adder, scaler, idx) in cons.items():
            m = got[n]
            f = lambda v: None if v is None else (v + adder) * scaler
            a, b = f(lo), f(up)
            if scaler < 0:
                a, b = b, a
            check((m['lower'], m['upper'], m['equals']) == (a, b, f(eq)), '%s constraint %s has %s, expected lower %s, upper %s, equals %s', when, n, m, a, b, f(eq))
            check(m['adder'] == adder and m['scaler'] == scaler and list(m.get('indices', ())) == list(idx or ()), '%s %s is %s, declared %s', when, n, m, cons[n])
        check(list(drv._objs) == list(objs), '%s the objectives are %s, declared: %s', when, list(drv._objs), list(objs))
        for n, (_, _, adder, scaler, idx) in objs.items():
            m = drv._objs[n]
            check(m['adder'] == adder and m['scaler'] == scaler and list(m.get('indices', ())) == list(idx or ()), '%s %s is %s, declared %s', when, n, m, objs[n])
    compare('before setup')

    class Comp(Component):
        def __init__(self):
            super(Comp, self).__init__()
            self.add_param('x', np.zeros(3))
            self.add_output('y', np.zeros(3))
            self.add_output('s', 0.0)
            self.add_output('obj', [1], pass_by_obj=True)

        def solve_nonlinear(self, params, unknowns, resids):
            unknowns['y'] = params['x'] * 2.
    prob = Problem(root=Group(), driver=drv)
    prob.root.add('p', IndepVarComp([('x', np.arange(3.)), ('w', 7.)]), promotes=['*'])
    prob.root.add('c', Comp())
    prob.root.connect('x', 'c.x')
    grads = spec['driver'] in ('SLSQP', 'doe') or spec['driver'] == 'custom' and spec['gradients']
    wrong = [n for n in list(des) + list(objs) + list(cons) if n == 'nope']
    over = [n for n in des if n.startswith('c.')]
    objects = [n for n in list(des) + list(objs) + list(cons) if n == 'c.obj' and grads]
    small = [n for d in (des, objs, cons) for n, o in d.items() if n in ('w', 'c.s') and o[-1] and max(o[-1]) > 0]
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            prob.setup(check=False)
    except (ValueError, RuntimeError, NameError) as err:
        text = str(err)
        check(any(n in text for n in wrong + over + objects + small), 'setup failed: %s (declared %s, %s, %s)', err, list(des), list(objs), list(cons))
        log.label('setup refused')
        log.nontrivial()
        return
    check(not wrong and not over and not objects, 'setup accepted the declarations of %s', wrong + over + objects)
    log.nontrivial(refused or des or cons or objs)
    compare('after setup')
    # the declared entries are what the driver exchanges
    prob.run_once()
    model = {'x': np.arange(3.), 'w': np.array([7.]), 'c.y': np.arange(3.) * 2, 'c.s': np.zeros(1)}
    if 'c.obj' in list(des) + list(objs) + list(cons):
        return
    for label, declared, get in (('design variable', des, drv.get_desvars), ('objective', objs, drv.get_objectives), ('constraint', cons, drv.get_constraints)):
        if any(n in ('w', 'c.s') and o[-1] and max(o[-1]) > 0 for n, o in declared.items()):
            try:
                get()
            except IndexError as err:
                check('out of bounds' in str(err), 'reading indices that do not exist: %s', err)
                continue
            check(False, '%s with indices that do not exist could be read', label)
        got = get()
        check(list(got) == list(declared), 'the driver reads %ss %s, declared: %s', label, list(got), list(declared))
        for n, o in declared.items():
            adder, scaler, idx = o[-3:]
            v = (model[n] if not idx else model[n][idx])
            check(np.array_equal(np.ravel(got[n]), (v + adder) * scaler), '%s %s is %s, expected %s', label, n, got[n], (v + adder) * scaler)


# ------------------------------------------------------------------ components

VARS = ['a', 'b', 'c', 'ab', 'a:b', 'a_1', '_x', 'a:b:c', 'Ab9']
BADS = ['', '1a', 'a b', 'a-b', 'a.b', 'a:', ':a', 'a:1', 'a*', 'a::b', 'a ', ' a', 'a\n']
VAL = st.sampled_from(['none', 'none', 'float', 'int', 'array', 'matrix', 'list', 'text'])


@st.composite
def components(draw):
    op = st.tuples(st.sampled_from(['param', 'output', 'output', 'state', 'state']), st.sampled_from(VARS * 3 + BADS), VAL,
                   st.sampled_from([None, None, None, 1, 3, [2], [2, 2]]), st.sampled_from([None] * 12 + ['low', 'high', 'resid', 'resid0', 'pbo']))
    meta = st.tuples(st.just('meta'), st.sampled_from(['k', 'l', 'm']), st.integers(0, 5), st.just(None), st.just(None))
    return dict(ops=[list(o) for o in draw(st.lists(st.one_of(op, op, op, meta), min_size=1, max_size=12))])


def real(v):
    return dict(float=2.5, int=4, array=np.array([1., 2., 3.]), matrix=np.arange(4.).reshape(2, 2), list=[1, 2], text='abc').get(v)


def run_components(spec, log):
    from openmdao.api import Problem, Group, Component

    class Comp(Component):
        def solve_nonlinear(self, params, unknowns, resids):
            pass

        def apply_nonlinear(self, params, unknowns, resids):
            pass
    comp = Comp()
    declared, metas = {}, {}
    refused = 0

    def attempt(op):
        kind, name, v, shape, extra = op
        if kind == 'meta':
            comp.add_metadata(name, v)
            return
        kw = {}
        if v != 'none':
            kw['val'] = copy.deepcopy(real(v))
        if shape is not None:
            kw['shape'] = tuple(shape) if isinstance(shape, list) else shape
        if extra in ('low', 'high'):
            kw[extra] = 1.0
        if extra == 'pbo':
            kw['pass_by_obj'] = True
        if extra in ('resid', 'resid0'):
            kw['resid_scaler'] = 2.0 if extra == 'resid' else 0.0
        getattr(comp, 'add_' + kind)(name, **kw)
    for op in spec['ops']:
        kind, name, v, shape, extra = op
        before = copy.deepcopy((comp._init_params_dict, comp._init_unknowns_dict, comp.metadata))
        reasons = []
        if kind == 'meta':
            if name in metas:
                reasons = [KeyError]
        else:
            if v == 'none' and shape is None and kind == 'param':
                # neither value nor shape: the input takes those of its source; not looked at here
                continue
            if v == 'none' and shape is None:
                reasons.append(ValueError)
            if extra in ('resid', 'resid0') and kind != 'state' or extra == 'resid0':
                reasons.append(ValueError)
            if extra in ('low', 'high'):
                reasons.append(TypeError)
            if name in declared:
                reasons.append(RuntimeError)
            elif not NAME.match(name):
                reasons.append(NameError)
        try:
            attempt(op)
        except (KeyError, ValueError, TypeError, RuntimeError, NameError) as err:
            check(type(err) in reasons, '%s was refused with %s: %s; expected %s', op, type(err).__name__, err, [r.__name__ for r in reasons])
            after = (comp._init_params_dict, comp._init_unknowns_dict, comp.metadata)
            check(all(same(dict(a), dict(b)) for a, b in zip(before, after)), '%s was refused, but the declarations changed from %s to %s', op, before, after)
            log.label('refused: ' + type(err).__name__)
            refused += 1
            continue
        check(not reasons, '%s was accepted, expected %s', op, [r.__name__ for r in reasons])
        if kind == 'meta':
            metas[name] = v
        else:
            declared[name] = op
    check(comp.metadata == metas, 'metadata is %s, expected %s', comp.metadata, metas)
    prob = Problem(root=Group())
    prob.root.add('k', comp)
    # an object as a state cannot be solved for: not set up here
    if any(o[0] == 'state' and (o[2] in ('list', 'text', 'int') or o[4] == 'pbo') for o in declared.values()):
        log.nontrivial(refused)
        return
    for o in declared.values():
        # a value and a shape that differ: which of the two counts is not looked at here
        if o[2] != 'none' and o[3] is not None and np.shape(real(o[2])) != (tuple(o[3]) if isinstance(o[3], list) else () if o[3] == 1 else (o[3],)):
            log.nontrivial(refused)
            return
    prob.root.ln_solver.options['maxiter'] = 3
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        prob.setup(check=False)
    for kind in ('param', 'unknown'):
        vec = comp.params if kind == 'param' else comp.unknowns
        want = [n for n, o in declared.items() if (o[0] == 'param') == (kind == 'param')]
        check(list(vec) == want, 'the component has %ss %s, declared: %s', kind, list(vec), want)
        for n in want:
            o = declared[n]
            if o[2] == 'none':
                val = 0.0 if o[3] == 1 else np.zeros(tuple(o[3]) if isinstance(o[3], list) else o[3])
            else:
                val = real(o[2])
            got = vec[n]
            check(np.shape(got) == np.shape(val) and np.all(np.asarray(got) == np.asarray(val)), '%s is %r, declared %s', n, got, o)
            check(bool(vec.metadata(n).get('state')) == (o[0] == 'state'), '%s: state is %s', o, vec.metadata(n).get('state'))
            pbo = o[4] == 'pbo' or o[2] in ('list', 'text', 'int')
            check(bool(vec.metadata(n).get('pass_by_obj')) == pbo, '%s: pass_by_obj is %s', o, vec.metadata(n).get('pass_by_obj'))
    # after setup, nothing can be added
    for kind in ('param', 'output', 'state'):
        try:
            getattr(comp, 'add_' + kind)('late', 1.0)
        except RuntimeError as err:
            check('setup has already been called' in str(err), 'late variable: %s', err)
        else:
            check(False, 'a %s could be added after setup', kind)
    log.nontrivial(refused or len(declared) > 1)


# ------------------------------------------------------------------ groups

GNAMES = ['a', 'b', 'c', 'd', 'a_1', 'x9']
GBAD = ['', '1a', 'a b', 'a.b', 'a-b', 'a ', 'add', 'ln_solver', 'name', 'pathname', 'nl_solver', 'connect']


@st.composite
def groups(draw):
    op = st.one_of(st.tuples(st.just('add'), st.sampled_from(GNAMES * 4 + GBAD), st.sampled_from(['comp', 'comp', 'group'])),
                   st.tuples(st.just('add'), st.sampled_from(GNAMES * 4 + GBAD), st.sampled_from(['comp', 'comp', 'group'])),
                   st.tuples(st.just('add'), st.sampled_from(GNAMES * 4 + GBAD), st.sampled_from(['comp', 'comp', 'group'])),
                   st.tuples(st.just('order'), st.randoms(use_true_random=False).map(lambda r: r.randrange(1000)), st.sampled_from(['good', 'good', 'missing', 'extra', 'double'])))
    return dict(ops=[list(o) for o in draw(st.lists(op, min_size=1, max_size=10))])


def run_groups(spec, log):
    import random
    from openmdao.api import Problem, Group, IndepVarComp
    g = Group()
    names, systems, ordered, refused = [], {}, False, 0
    for op in spec['ops']:
        before = list(g.list_order())
        if op[0] == 'add':
            name, kind = op[1:]
            s = Group() if kind == 'group' else IndepVarComp('v', 1.0)
            bad = None
            if ordered:
                bad = RuntimeError
            elif name in names or hasattr(Group(), name):
                bad = RuntimeError
            elif not NAME.match(name):
                bad = NameError
            try:
                res = g.add(name, s)
            except (RuntimeError, NameError) as err:
                check(type(err) is bad, '%s was refused: %s', op, err)
                refused += 1
                check(s not in list(g.subsystems()), '%s was refused, but the system is in the group', op)
                log.label('refused: add')
            else:
                check(bad is None, '%s was accepted (have %s, order set: %s)', op, names, ordered)
                check(res is s and getattr(g, name) is s and s.name == name, 'add returned %r for %s', res, op)
                names.append(name)
                systems[name] = s
        else:
            new = list(names)
            random.Random(op[1]).shuffle(new)
            kind = op[2]
            if kind == 'missing' and new:
                new.pop()
            elif kind == 'extra':
                new.append('nothing')
            elif kind == 'double' and new:
                new.append(new[0])
            good = sorted(new) == sorted(names)
            try:
                g.set_order(new)
            except ValueError as err:
                check(not good, '%s was refused for %s: %s', new, names, err)
                refused += 1
                check(('missing' in str(err)) == (kind == 'missing') and ('extra' in str(err)) == (kind == 'extra') and ('Duplicate' in str(err)) == (kind == 'double'), 'order %s of %s was refused with: %s', new, names, err)
                log.label('refused: order')
            else:
                check(good, 'order %s was accepted, the systems are %s', new, names)
                names, ordered = new, True
        check(g.list_order() == names, 'after %s the order is %s, expected %s (before: %s)', op, g.list_order(), names, before)
        check([s.name for s in g.subsystems()] == names and all(s is systems[s.name] for s in g.subsystems()), 'after %s the systems are %s', op, [s.name for s in g.subsystems()])
    prob = Problem(root=Group())
    prob.root.add('g', g)
    prob.setup(check=False)
    check([s.name for s in g.subsystems()] == names or not ordered, 'the order that was set became %s, expected %s', [s.name for s in g.subsystems()], names)
    check(sorted(s.name for s in g.subsystems()) == sorted(names), 'after setup the systems are %s', [s.name for s in g.subsystems()])
    for n in names:
        check(prob.root.find_subsystem('g.' + n) is systems[n] and systems[n].pathname == 'g.' + n, 'g.%s is %r', n, systems[n].pathname)
    log.nontrivial(refused or len(names) > 1)


FACETS = [
    Facet('driver', declarations, run_declarations, 500, rule='something is declared or refused'),
    Facet('component', components, run_components, 400, rule='something is refused, or several variables'),
    Facet('group', groups, run_groups, 300, rule='something is refused, or several systems'),
]
