"""C20: option dictionaries enforce declarations and return what was set."""
import copy
import pickle
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt.core import Facet, check

ASSUMPTIONS = ['the type of an option is the exact type of its current value, the documented strictness',
               'the lock is one switch for all dictionaries, set by setup and cleared when a new dictionary is made (documented in the class)',
               'nan and values that compare equal to a listed value (True == 1) are not offered as invalid values']

NAMES = ['a', 'maxiter', 'the option', 'old', 'older']
VALUES = st.one_of(st.integers(-3, 6), st.sampled_from([-1.5, 0.0, .5, 2.0, 3.0, 7.25]), st.booleans(), st.none(),
                   st.sampled_from(['', 'x', 'auto', 'fwd', 'rev']), st.just([]), st.lists(st.integers(0, 3), max_size=2),
                   st.dictionaries(st.sampled_from(['k', 'l']), st.integers(0, 3), max_size=1),
                   st.just({'__t': 1}))
MISSING = object()


def real(v):
    """JSON value -> Python value (tuples are encoded)"""
    if isinstance(v, dict) and '__t' in v:
        return (v['__t'],)
    return v


BOUND = st.one_of(st.none(), st.sampled_from([-2, 0, 1, 3, 0.0, 1.5]))


@st.composite
def histories(draw):
    d = st.sampled_from([0, 0, 0, 0, 0, 1, 2])
    name = st.sampled_from(NAMES)
    add = st.tuples(st.just('add'), d, st.sampled_from(NAMES[:3] * 4 + NAMES[3:]), VALUES, BOUND, BOUND,
                    st.one_of(st.none(), st.none(), st.lists(VALUES, min_size=1, max_size=4)), st.booleans(), st.sampled_from([True, True, True, False]))
    op = st.one_of(add,
                   st.tuples(st.just('set like'), d, name, st.integers(0, 9)), st.tuples(st.just('set like'), d, name, st.integers(0, 9)),
                   st.tuples(st.just('set'), d, name, VALUES), st.tuples(st.just('set'), d, name, VALUES),
                   st.tuples(st.just('set like'), d, name, st.integers(0, 9)), st.tuples(st.just('set like'), d, name, st.integers(0, 9)),
                   st.tuples(st.just('get'), d, name, VALUES), st.tuples(st.just('get'), d, st.sampled_from(['old', 'old', 'older']), VALUES),
                   st.tuples(st.just('set like'), d, st.sampled_from(['old', 'old', 'older']), st.integers(0, 9)),
                   st.tuples(st.just('remove'), d, name), st.tuples(st.just('deprecate'), d, st.sampled_from(['old', 'old', 'older', 'a']), name),
                   st.tuples(st.just('deprecate'), d, st.sampled_from(['old', 'older']), st.sampled_from(NAMES[:3])),
                   st.tuples(st.just('attr'), d, name, VALUES), st.tuples(st.sampled_from(['lock', 'lock', 'lock', 'unlock']), d),
                   st.tuples(st.just('copy'), d, st.sampled_from(['deepcopy', 'pickle'])), 
                   st.tuples(st.sampled_from(['doc', 'new']), d))
    return dict(start=[list(o) for o in draw(st.lists(add, min_size=1, max_size=5))], ops=[list(o) for o in draw(st.lists(op, min_size=2, max_size=20))])


def same(a, b):
    return type(a) is type(b) and a == b


class Model(object):
    """Reference: declared options of one dictionary."""

    def __init__(self):
        self.opts = {}
        self.old = {}

    def find(self, name):
        if name in self.opts:
            return name
        new = self.old.get(name)
        return new if new in self.opts else None

    @staticmethod
    def valid(o, v):
        if o['values'] is not None:
            return v in o['values']
        if type(v) is not type(o['val']):
            return False
        if o['lower'] is not None and v < o['lower'] or o['upper'] is not None and v > o['upper']:
            return False
        return True


def usable(v, values, lower, upper):
    """declarations whose meaning is clear"""
    if values is None and (lower is not None or upper is not None):
        return isinstance(v, (int, float)) and not isinstance(v, bool)
    return True


def run(spec, log):
    from openmdao.api import OptionsDictionary
    dicts = [OptionsDictionary(), OptionsDictionary(), OptionsDictionary(read_only=False)]
    models = [Model(), Model(), Model()]
    locked = False
    OptionsDictionary.locked = False
    count = {}

    def state(k):
        d, m = dicts[k], models[k]
        got = dict(d.items())
        check(set(got) == set(m.opts), 'dictionary lists the options %s, declared are %s', sorted(got), sorted(m.opts))
        check(dict(d.iteritems()) == got, 'iteritems and items differ')
        for n, o in m.opts.items():
            check(same(got[n], o['val']), 'items(): option %r is %r, the last valid value is %r', n, got[n], o['val'])
            check(same(d[n], o['val']), 'option %r is %r, the last valid value is %r', n, d[n], o['val'])
        for n in NAMES:
            if n in m.old and m.find(n) is None:
                continue     # forwards to an option that has been removed
            check((n in d) == (m.find(n) is not None), '%r in dictionary is %s', n, n in d)

    def tried(what, fn, allowed):
        """runs fn; returns None or the exception, which has to be of an allowed type"""
        try:
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                r = fn()
            return None, r, [str(x.message) for x in w if issubclass(x.category, DeprecationWarning)]
        except allowed as err:
            return err, None, []

    def assign(k, name, value):
        d, m = dicts[k], models[k]
        real_name = m.find(name)
        err, _, warned = tried('set', lambda: d.__setitem__(name, value), (KeyError, ValueError, RuntimeError))
        if real_name is None:
            check(isinstance(err, KeyError), 'setting undeclared option %r: %r', name, err)
            kind = 'undeclared'
        elif locked and m.opts[real_name]['lock']:
            check(isinstance(err, RuntimeError), 'setting locked option %r to %r: %r', name, value, err)
            check(real_name in str(err), 'message %r does not name the option %r', str(err), real_name)
            kind = 'locked'
        elif not Model.valid(m.opts[real_name], value):
            check(isinstance(err, ValueError), 'option %r (%s) accepted %r', name, m.opts[real_name], value)
            check(real_name in str(err), 'message %r does not name the option %r', str(err), real_name)
            kind = 'invalid'
        else:
            check(err is None, 'option %r (%s) refused %r: %s', name, m.opts[real_name], value, err)
            m.opts[real_name]['val'] = value
            kind = 'set'
            if real_name != name:
                check(any(name in x and real_name in x for x in warned), 'no deprecation warning for %r: %s', name, warned)
                kind = 'set through old name'
        count[kind] = count.get(kind, 0) + 1

    def near(o, i):
        """a value close to what is allowed"""
        if o['values'] is not None:
            return (list(o['values']) + ['not listed', None])[i % (len(o['values']) + 2)]
        v = o['val']
        if isinstance(v, bool):
            return [True, False, 1, 'True'][i % 4]
        if isinstance(v, (int, float)):
            c = type(v)
            lo, hi = o['lower'], o['upper']
            cand = [c(v + 1), c(v - 1), c(0)]
            for b in (lo, hi):
                if b is not None:
                    cand += [c(b + 1), c(b - 1), c(b)]
                    if isinstance(v, float):
                        cand += [c(b + 1e-9), c(b - 1e-9)]
            cand += [int(v), np.float64(v), str(v)] if isinstance(v, float) else [float(v), True]
            return cand[i % len(cand)]
        if isinstance(v, str):
            return [v + 'x', '', None, 1][i % 4]
        return [copy.copy(v), [], (), {}, None, ''][i % 6]

    for op in spec['start'] + spec['ops']:
        kind, k = op[0], op[1] % len(dicts)
        d, m = dicts[k], models[k]
        if kind == 'add':
            _, _, name, value, lower, upper, values, lock, fit = op
            value = real(value)
            values = None if values is None else [real(v) for v in values]
            if not usable(value, values, lower, upper):
                lower = upper = None
            if fit:     # make the default a valid one
                if values is not None:
                    values = values[:1] + [value] + values[1:]
                else:
                    lower, upper = [b if b is None or f(b, value) == b else value for f, b in ((min, lower), (max, upper))]
            o = dict(val=value, lower=lower, upper=upper, values=values, lock=lock)
            if locked and lock:
                continue    # options are declared before setup
            err, _, _ = tried('add', lambda: d.add_option(name, value, lower=lower, upper=upper, values=values, desc='about ' + name,
                                                          lock_on_setup=lock), (ValueError,))
            if name in m.opts:
                check(isinstance(err, ValueError), 'option %r was declared twice', name)
            elif not Model.valid(o, value):
                check(isinstance(err, ValueError), 'default %r was accepted for an option with %s', value, o)
                count['bad default'] = 1
            else:
                check(err is None, 'declaring %r with %s failed: %s', name, o, err)
                m.opts[name] = o
        elif kind == 'set':
            assign(k, op[2], real(op[3]))
        elif kind == 'set like':
            if m.opts:
                name = op[2] if m.find(op[2]) else sorted(m.opts)[op[3] % len(m.opts)]
                assign(k, name, near(m.opts[m.find(name)], op[3]))
        elif kind == 'get':
            name, default = op[2], real(op[3])
            n = m.find(name)
            if name in m.old and n is None:
                continue
            err, got, warned = tried('get', lambda: d[name], (KeyError,))
            if n is None:
                check(isinstance(err, KeyError) and name in str(err), 'reading undeclared option %r: %r %r', name, err, got)
            else:
                check(err is None and same(got, m.opts[n]['val']), 'option %r reads %r (%r), expected %r', name, got, err, m.opts[n]['val'])
                check((n == name) == (not warned), 'deprecation warnings for %r: %s', name, warned)
            err, got, _ = tried('get', lambda: d.get(name, default), ())
            want = m.opts[n]['val'] if n is not None else default
            check(same(got, want), 'get(%r) returns %r, expected %r', name, got, want)
            if n is not None and n != name:
                count['read through old name'] = 1
        elif kind == 'remove':
            d.remove_option(op[2])
            m.opts.pop(op[2], None)
        elif kind == 'deprecate':
            old, new = op[2], op[3]
            if new not in m.opts and m.opts and len(old) > 3:
                new = sorted(m.opts)[0]
            if old == new:
                continue
            err, _, _ = tried('deprecate', lambda: d._add_deprecation(old, new), (NameError,))
            if new in m.opts:
                check(err is None, 'deprecation of %r for %r failed: %s', old, new, err)
                m.old[old] = new
            else:
                check(err is not None, 'deprecation for the unknown option %r was accepted', new)
        elif kind == 'attr':
            if not op[2].isidentifier():
                continue
            err, _, _ = tried('attr', lambda: setattr(d, op[2], real(op[3])), (ValueError,))
            check(err is not None, 'attribute %r could be set', op[2])
        elif kind == 'lock':
            OptionsDictionary.locked = locked = True
        elif kind == 'unlock':
            OptionsDictionary.locked = locked = False
        elif kind == 'new':
            dicts[k], models[k] = OptionsDictionary(), Model()
            locked = False
        elif kind == 'copy':
            dicts[k] = copy.deepcopy(d) if op[2] == 'deepcopy' else pickle.loads(pickle.dumps(d))
            for n, o in m.opts.items():
                if isinstance(o['val'], list):   # the copy is independent of the original
                    d[n].append('changed')
                    d[n].pop()
            # the original must not follow the copy any more
            before = dict(d.items())
            for n, o in list(m.opts.items())[:1]:
                if not (locked and o['lock']):
                    assign(k, n, near(o, 0))
            check(dict(d.items()) == before, 'setting an option of a copy changed the original')
            count['copied'] = 1
        elif kind == 'doc':
            text = d._generate_docstring('options')
            for n, o in m.opts.items():
                check("options['%s'] : %s(" % (n, type(o['val']).__name__) in text and 'about ' + n in text, 'docstring lacks %r:\n%s', n, text)
        for j in range(len(dicts)):
            state(j)
    OptionsDictionary.locked = False
    log.label(*sorted(count))
    log.nontrivial(count.get('set', 0) > 0 and ('invalid' in count or 'locked' in count))


# ------------------------------------------------------------------ the dictionaries of the library

F0, I0, I1, B, S, L, D, FL, IN = 'float>=0', 'int>=0', 'int>=1', 'bool', 'str', 'list', 'dict', 'float', 'int'
MODE = (['fwd', 'rev', 'auto'], True)
LIB = {
    'LinearGaussSeidel': ('options', dict(atol=F0, rtol=F0, maxiter=I1, mode=MODE, iprint=([-1, 0, 1, 2], False), err_on_maxiter=B,
                                          single_voi_relevance_reduction=([True, False], True))),
    'ScipyGMRES': ('options', dict(atol=F0, maxiter=I0, mode=(MODE[0], False), iprint=([-1, 0, 1, 2], False), err_on_maxiter=B)),
    'DirectSolver': ('options', dict(mode=MODE, jacobian_method=(['MVP', 'assemble'], False), solve_method=(['LU', 'solve'], False))),
    'NLGaussSeidel': ('options', dict(atol=F0, rtol=F0, utol=F0, maxiter=I0, iprint=([-1, 0, 1, 2], False), err_on_maxiter=B)),
    'Newton': ('options', dict(atol=F0, rtol=F0, utol=F0, maxiter=I0, iprint=([-1, 0, 1, 2], False), err_on_maxiter=B, alpha=FL,
                               solve_subsystems=B)),
    'Brent': ('options', dict(maxiter=IN, upper_bound=FL, lower_bound=FL, state_var=S, xtol=FL, rtol=FL, state_var_idx=IN, var_lower_bound=S)),
    'BackTracking': ('options', dict(maxiter=I0, rho=FL, c=FL, solve_subsystems=B)),
    'ScipyOptimizer': ('options', dict(tol=F0, maxiter=I0, disp=B, optimizer=(['SLSQP', 'COBYLA', 'BFGS', 'L-BFGS-B'], False))),
    'InMemoryRecorder': ('options', dict(record_metadata=B, record_unknowns=B, record_params=B, record_resids=B, record_derivs=B,
                                         includes=L, excludes=L)),
    'ExternalCode': ('options', dict(command=L, env_vars=D, external_input_files=L, external_output_files=L, fail_hard=B,
                                     poll_delay=F0, timeout=F0)),
    'Group': ('deriv_options', dict(type=(['user', 'fd', 'cs'], True), form=(['forward', 'backward', 'central'], False), step_size=F0,
                                    step_calc=(['absolute', 'relative'], False), check_type=(['fd', 'cs'], True),
                                    check_form=(['forward', 'backward', 'central'], False), check_step_size=F0,
                                    check_step_calc=(['absolute', 'relative'], False), linearize=B)),
}
GOOD = {F0: [0.0, 1e-9, 2.5], I0: [0, 3, 10 ** 6], I1: [1, 4], B: [True, False], S: ['', 'p', 'a.b'], L: [[], ['x'], ['a', 'b']],
        D: [{}, {'A': 'b'}], FL: [-2.0, 0.0, 1e9], IN: [-4, 0, 12]}
BAD = {F0: [-1e-12, -3.0, 1, '1', None], I0: [-1, 1.0, True, 'a'], I1: [0, -5, 2.0, None], B: [0, 1, 'yes', None], S: [1, None, ['p']],
       L: ['x', ('a',), None, {}], D: [[], 'x', None], FL: [1, 'x', None], IN: [1.0, '1', None, True]}


@st.composite
def libs(draw):
    cls = draw(st.sampled_from(sorted(LIB)))
    names = sorted(LIB[cls][1])
    deriv = [['fd_options', draw(st.sampled_from(['force_fd', 'step_type', 'form', 'extra_check_partials_form', 'step_size', 'nonsense'])),
              draw(st.integers(0, 9))] for _ in range(3)] if cls == 'Group' else []
    op = st.one_of(st.tuples(st.sampled_from(['good', 'good', 'bad', 'undeclared']), st.sampled_from(names), st.integers(0, 9)),
                   st.tuples(st.sampled_from(['setup', 'other problem', 'good', 'bad']), st.sampled_from(names), st.integers(0, 9)))
    ops = [list(o) for o in draw(st.lists(op, min_size=2, max_size=14))]
    for o in deriv:
        ops.insert(draw(st.integers(0, len(ops))), o)
    return dict(cls=cls, ops=ops)


def run_lib(spec, log):
    import openmdao.api as api
    from openmdao.solvers.backtracking import BackTracking
    from openmdao.util.options import OptionsDictionary
    OptionsDictionary.locked = False
    cls = spec['cls']
    attr, table = LIB[cls]
    make = {'BackTracking': BackTracking, 'ExternalCode': api.ExternalCode}.get(cls) or getattr(api, cls)
    warnings.simplefilter('ignore')
    other, obj = make(), make()
    base = dict(getattr(other, attr).items())
    prob = api.Problem(root=api.Group())
    g = prob.root.add('g', obj if cls == 'Group' else api.Group())
    ind = g.add('i', api.IndepVarComp('x', 1.0))
    g.add('c', api.ExecComp('y = 2*x'))
    g.connect('i.x', 'c.x')
    if cls == 'ExternalCode':
        obj.options['command'] = ['true']
        other.options['command'] = ['true']
        base = dict(other.options.items())
        g.add('e', obj)
    elif cls in ('LinearGaussSeidel', 'ScipyGMRES', 'DirectSolver'):
        g.ln_solver = obj
    elif cls in ('NLGaussSeidel', 'Newton', 'Brent'):
        if cls == 'Brent':
            obj.options['state_var'] = 'y'
            other.options['state_var'] = 'y'
            base = dict(other.options.items())
        g.nl_solver = obj
    elif cls == 'BackTracking':
        g.nl_solver = api.Newton()
        g.nl_solver.line_search = obj
    elif cls == 'ScipyOptimizer':
        prob.driver = obj
    elif cls == 'InMemoryRecorder':
        prob.driver.add_recorder(obj)
    d = getattr(obj, attr)
    want = dict(d.items())
    for n in table:
        check(n in d and n in want, '%s has no option %r', cls, n)
    check(set(table) <= set(base), '%s lacks options', cls)
    locked = False
    touched = set()
    seen = set()

    def verify(what):
        got = dict(d.items())
        for n in want:
            check(same(got[n], want[n]), '%s, %s: option %r is %r, expected %r', cls, what, n, got[n], want[n])
        now = dict(getattr(other, attr).items())
        check(now == base, '%s: options of another instance changed: %s, were %s', cls, now, base)

    def steps(n):
        """deriv_options: a default step size follows the kind of difference"""
        if cls != 'Group':
            return
        for kind, step in (('type', 'step_size'), ('check_type', 'check_step_size')):
            if n == kind and step not in touched:
                if want[kind] == 'fd':
                    want[step] = 1e-6
                elif want[kind] == 'cs':
                    want[step] = 1e-30

    for kind, name, i in spec['ops']:
        decl = table.get(name)
        if kind == 'setup':
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    prob.setup(check=False)
            except Exception as err:
                if cls == 'Group' or cls in ('ExternalCode', 'Newton', 'DirectSolver', 'Brent'):   # unusual, but allowed, settings
                    log.label('setup refused')
                    OptionsDictionary.locked = False
                    locked = False
                    verify('refused setup')
                    continue
                raise
            locked = True
        elif kind == 'other problem':
            if locked:
                continue
            api.Problem(root=api.Group())
        elif kind == 'undeclared':
            try:
                d[name + '_x'] = 1
            except KeyError:
                pass
            else:
                check(False, '%s accepted the undeclared option %r', cls, name + '_x')
            check(name + '_x' not in d and d.get(name + '_x', 5) == 5, '%s knows the undeclared option %r', cls, name + '_x')
        elif kind == 'fd_options':
            opt = name
            val = {'force_fd': [True, False], 'step_type': ['absolute', 'relative', 'x'], 'form': ['central', 'complex_step', 'forward'],
                   'extra_check_partials_form': ['central', 'backward'], 'step_size': [1e-4, 1], 'nonsense': [1]}[opt]
            val = val[i % len(val)]
            target, new = {'force_fd': ('type', 'fd' if val else 'user'), 'step_type': ('step_calc', val),
                           'form': ('form', val) if val != 'complex_step' else ('type', 'cs'), 'extra_check_partials_form': ('check_form', val),
                           'step_size': ('step_size', val), 'nonsense': ('nonsense', 1)}[opt]
            ok = target in table and not (locked and target == 'type') and val not in ('x', 1) or opt == 'force_fd' and not locked
            try:
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter('always')
                    obj.fd_options[opt] = val
                check(ok, 'fd_options[%r] = %r was accepted', opt, val)
                check(any(issubclass(x.category, DeprecationWarning) for x in w), 'no deprecation warning')
                want[target] = new
                if target == 'step_size':
                    touched.add(target)
                steps(target)
            except (KeyError, ValueError, RuntimeError) as err:
                check(not ok, 'fd_options[%r] = %r was refused: %r', opt, val, err)
            try:
                got = obj.fd_options[opt]
            except KeyError:
                check(opt == 'nonsense', 'fd_options[%r] cannot be read', opt)
            else:
                w = want['type'] in ('fd', 'cs') if opt == 'force_fd' else want[{'step_type': 'step_calc', 'extra_check_partials_form': 'check_form'}.get(opt, opt)]
                check(got == w, 'fd_options[%r] is %r, expected %r', opt, got, w)
            seen.add('fd_options')
        else:
            lock = isinstance(decl, tuple) and decl[1]
            if isinstance(decl, tuple):
                vals = decl[0] if kind == 'good' else ['nonsense', None, 17, decl[0][0:0] if isinstance(decl[0][0], str) else 'x']
            else:
                vals = (GOOD if kind == 'good' else BAD)[decl]
            v = copy.copy(vals[i % len(vals)])
            try:
                d[name] = v
            except RuntimeError as err:
                check(locked and lock, '%s: option %r refused %r before setup: %s', cls, name, v, err)
                seen.add('locked')
            except ValueError as err:
                check(kind == 'bad', '%s: option %r refused %r: %s', cls, name, v, err)
                seen.add('refused')
            else:
                check(kind == 'good', '%s: option %r accepted %r', cls, name, v)
                check(not (locked and lock), '%s: option %r was changed after setup', cls, name)
                want[name] = v
                touched.add(name)
                steps(name)
                seen.add('set')
        verify('%s %s' % (kind, name))
    OptionsDictionary.locked = False
    log.label(cls, *sorted(seen))
    log.nontrivial('set' in seen and ('refused' in seen or 'locked' in seen or 'fd_options' in seen))


FACETS = [
    Facet('dictionary', histories, run, quick=1600, thorough=40000, rule='at least one value set and one invalid or locked one refused'),
    Facet('library', libs, run_lib, quick=700, thorough=15000, rule='at least one value set and one refused'),
]
