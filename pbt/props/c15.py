"""C15: unit conversion is exact, invertible and transitive; quantity arithmetic agrees with base units."""
import io
import keyword
import math
import os

import numpy as np
from hypothesis import strategies as st

from pbt import si
from pbt.core import Facet, REPO, check
from pbt.si import BASE, OFFSET, PREFIX, UNITS, mul

ASSUMPTIONS = ['the SI definitions are those of pbt/si.py; definitions of constants that are measured or given with few '
               'digits are compared to the accuracy stated there', 'prefixes are applied as documented: names of units '
               'are matched before prefixes, one-letter prefixes before two-letter ones',
               'sums of temperatures on an offset scale are only required to be refused when the scales differ in offset '
               'and factor (the existing tests fix degC + degK as a sum of differences)']

NAMES = sorted(UNITS)
COMMON = ['m', 'ft', 'inch', 'km', 'mm', 'NM', 's', 'min', 'h', 'ms', 'kg', 'g', 'lb', 'slug', 'N', 'kN', 'lbf', 'Pa',
          'MPa', 'psi', 'bar', 'J', 'kJ', 'Btu', 'W', 'hp', 'A', 'mA', 'V', 'mol', 'rad', 'deg', 'rpm', 'Hz', 'L', 'cm',
          'degK', 'degR', 'K', 'mK', 'USD', 'byte', 'Kibyte', 'dam', 'daN', 'am', 'ag', 'dag', 'unitless', 'ohm', 'T']


def lookup(name):
    """(factor, dims, tol) of a possibly prefixed name."""
    if name in UNITS:
        return UNITS[name]
    for k in (1, 2):
        if name[:k] in PREFIX and name[k:] in UNITS:
            f, d, t = UNITS[name[k:]]
            return f * PREFIX[name[:k]], d, t
    return None


# two units of the same dimensions, to substitute for one another
BYDIM = {}
for _n in NAMES + [n for n in COMMON if n not in UNITS]:
    BYDIM.setdefault(tuple(sorted(lookup(_n)[1].items())), []).append(_n)


@st.composite
def leaf(draw):
    k = draw(st.integers(0, 9))
    if k < 5:
        return draw(st.sampled_from(COMMON))
    if k < 8:
        return draw(st.sampled_from(NAMES))
    name = draw(st.sampled_from(sorted(PREFIX))) + draw(st.sampled_from(NAMES))
    if name in UNITS or name in OFFSET or lookup(name) is None or keyword.iskeyword(name):
        return draw(st.sampled_from(COMMON))
    return name


@st.composite
def unit_exprs(draw, depth=2):
    """['u', name] | ['*', a, b] | ['/', a, b] | ['^', a, n] | ['k', number, a]"""
    if depth == 0 or draw(st.integers(0, 2)) == 0:
        return ['u', draw(leaf())]
    k = draw(st.sampled_from(['*', '*', '/', '/', '^', 'k', '1/']))
    if k in '*/':
        return [k, draw(unit_exprs(depth=depth - 1)), draw(unit_exprs(depth=depth - 1))]
    if k == '^':
        return ['^', draw(unit_exprs(depth=depth - 1)), draw(st.sampled_from([2, 2, 3, -1, -2, 1]))]
    if k == 'k':
        return ['k', draw(st.sampled_from([2, 5.0, 1000, 0.25])), draw(unit_exprs(depth=depth - 1))]
    return ['1/', draw(unit_exprs(depth=depth - 1))]


def evaluate(e):
    """(factor, dims, relative tolerance); raises OverflowError for factors that leave the range of a double."""
    k = e[0]
    if k == 'u':
        return lookup(e[1])
    if k == 'k':
        f, d, t = evaluate(e[2])
        return f * e[1], d, t
    if k == '1/':
        f, d, t = evaluate(e[1])
        return 1.0 / f, mul({}, d, -1), t
    if k == '^':
        f, d, t = evaluate(e[1])
        n = e[2]
        return f ** n, mul({}, dict((a, b * n) for a, b in d.items())), t * abs(n)
    a, b = evaluate(e[1]), evaluate(e[2])
    if k == '*':
        return a[0] * b[0], mul(a[1], b[1]), a[2] + b[2]
    return a[0] / b[0], mul(a[1], b[1], -1), a[2] + b[2]


def text(e, prec=0):
    """Render with the parentheses Python's precedence needs."""
    k = e[0]
    if k == 'u':
        return e[1]
    if k == 'k':
        s, p = '%r*%s' % (e[1], text(e[2], 2)), 1
    elif k == '1/':
        s, p = '1/%s' % text(e[1], 2), 1
    elif k == '^':
        s, p = '%s**%d' % (text(e[1], 4), e[2]), 3
    elif k == '*':
        s, p = '%s*%s' % (text(e[1], 1), text(e[2], 2)), 1
    else:
        s, p = '%s/%s' % (text(e[1], 1), text(e[2], 2)), 1
    return '(%s)' % s if p < prec else s


@st.composite
def respell(draw, e):
    """An expression of the same dimensions: every leaf replaced by a compatible one, or by its base units."""
    k = e[0]
    if k == 'u':
        dims = lookup(e[1])[1]
        if draw(st.integers(0, 4)) == 0 and len(dims) > 0:
            out = None
            for b in sorted(dims):
                n = dims[b]
                t = ['u', b] if n == 1 else ['^', ['u', b], n]
                out = t if out is None else ['*', out, t]
            return out
        return ['u', draw(st.sampled_from(BYDIM[tuple(sorted(dims.items()))]))] if \
            tuple(sorted(dims.items())) in BYDIM else e
    if k == 'k':
        return draw(respell(e[2]))
    if k == '^':
        return ['^', draw(respell(e[1])), e[2]]
    if k == '1/':
        return ['1/', draw(respell(e[1]))]
    return [k, draw(respell(e[1])), draw(respell(e[2]))]


VALUES = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 2.5, 1000.0, 1e-6, -273.15, 32.0, 212.0]),
                   st.floats(-1e6, 1e6, allow_nan=False, allow_subnormal=False).map(lambda v: float('%.7g' % v) if abs(v) > 1e-9 else 0.0))
HISTORY = st.lists(leaf(), max_size=6)


def fresh(history=()):
    """The units module with the library as it is on import, then some unrelated lookups."""
    from openmdao.units import units
    with open(os.path.join(REPO, 'openmdao', 'units', 'unit_library.ini')) as f:
        units.import_library(f)
    for name in history:
        units.PhysicalQuantity(1.0, name)
    return units


def near(a, b, rtol, what, *args):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    check(a.shape == b.shape and np.all(np.abs(a - b) <= rtol * np.abs(b) + 1e-300), what + ': got %s, expected %s',
          *(args + (a.tolist(), b.tolist())))


def in_range(*fs):
    return all(1e-120 < abs(f) < 1e120 for f in fs)


# ----------------------------------------------------------------- conversion

@st.composite
def convert_cases(draw):
    a = draw(unit_exprs())
    return dict(a=a, b=draw(respell(a)), c=draw(respell(a)), bad=draw(unit_exprs()), v=draw(VALUES),
                arr=draw(st.booleans()), hist=draw(HISTORY), sp=draw(st.booleans()),
                bogus=draw(st.sampled_from(['mx', 'foo', 'm/xyz', 'kdegC', 'degC*m', 'm**2.5', 'm+s', '', '3', 'm s',
                                            'm**', 'kmm', 'mmm', 'metre', 'degC**2', 'm/degF', '1/degC', '1/degF', '2.5/degC'])))


def run_convert(spec, log):
    units = fresh(spec['hist'])
    a, b, c = spec['a'], spec['b'], spec['c']
    try:
        (fa, da, ta), (fb, db, tb), (fc, dc, tc) = evaluate(a), evaluate(b), evaluate(c)
    except (OverflowError, ZeroDivisionError):
        log.label('overflow')
        return
    if not in_range(fa, fb, fc):
        log.label('overflow')
        return
    check(da == db == dc, 'harness: dimensions differ')
    A, B, C = text(a), text(b), text(c)
    if spec['sp']:
        B = ' ' + B + ' '
    v = spec['v'] * (np.array([1.0, -2.0, 0.5]) if spec['arr'] else 1.0)
    tol = ta + tb + 1e-12
    got = units.convert_units(v, A, B)
    near(got, v * fa / fb, tol, 'convert_units(%s, %r, %r)', v, A, B)
    near(units.convert_units(got, B, A), v, 1e-12, 'back conversion %r to %r to %r', A, B, A)
    via = units.convert_units(units.convert_units(v, A, C), C, B)
    near(via, got, 1e-12, 'conversion %r to %r through %r', A, B, C)
    f, o = units.get_conversion_tuple(A, B)
    near((v + o) * f, v * fa / fb, tol, 'get_conversion_tuple(%r, %r)', A, B)
    # a quantity holding the value
    q = units.PhysicalQuantity(v, A)
    check(q.is_compatible(B) is True, '%r is not compatible with %r', A, B)
    near(q.in_units_of(B).value, v * fa / fb, tol, 'in_units_of %r to %r', A, B)
    near(q.value, v, 0, 'in_units_of changed its quantity')
    q.convert_to_unit(B)
    near(q.value, v * fa / fb, tol, 'convert_to_unit %r to %r', A, B)
    if not spec['arr'] and a[0] == 'u':
        s = '%r %s' % (spec['v'], A)
        q = units.PhysicalQuantity(s)
        near(q.value, spec['v'], 0, 'value of PhysicalQuantity(%r)', s)
        near(q.in_units_of(B).value, v * fa / fb, tol, 'PhysicalQuantity(%r) in %r', s, B)
    # incompatible units
    try:
        fbad, dbad, _ = evaluate(spec['bad'])
    except (OverflowError, ZeroDivisionError):
        dbad = da
    if dbad != da:
        D = text(spec['bad'])
        for what, fn in (('convert_units', lambda: units.convert_units(1.0, A, D)),
                         ('get_conversion_tuple', lambda: units.get_conversion_tuple(A, D)),
                         ('in_units_of', lambda: units.PhysicalQuantity(1.0, A).in_units_of(D)),
                         ('convert_to_unit', lambda: units.PhysicalQuantity(1.0, A).convert_to_unit(D))):
            try:
                r = fn()
            except TypeError:
                pass
            else:
                check(False, '%s accepts the incompatible units %r and %r (result %r)', what, A, D, r)
        check(units.PhysicalQuantity(1.0, A).is_compatible(D) is False, '%r is said to be compatible with %r', A, D)
        log.label('incompatible')
    bogus = spec['bogus']
    try:
        r = units.PhysicalQuantity(1.0, bogus)
    except (ValueError, TypeError, SyntaxError):
        pass
    else:
        check(False, 'the invalid unit %r is accepted: %r (earlier lookups %s)', bogus, r, spec['hist'])
    log.label(a[0])
    log.nontrivial(A != B.strip())


# ----------------------------------------------------------------- temperatures

TEMPS = ['degC', 'degF', 'degR', 'degK', 'K', 'mK', 'kK', 'mdegR', '2*K', 'K*5/9.']


@st.composite
def temp_cases(draw):
    return dict(a=draw(st.sampled_from(TEMPS)), b=draw(st.sampled_from(TEMPS)), c=draw(st.sampled_from(TEMPS)),
                v=draw(VALUES), w=draw(VALUES), hist=draw(HISTORY))


def temp(u):
    if u in OFFSET:
        return OFFSET[u]
    return {'2*K': 2.0, 'K*5/9.': 5.0 / 9}[u] if '*' in u else lookup(u)[0], 0.0


def run_temp(spec, log):
    units = fresh(spec['hist'])
    a, b, c, v = spec['a'], spec['b'], spec['c'], spec['v']
    (fa, oa), (fb, ob), (fc, oc) = temp(a), temp(b), temp(c)
    kelvin = fa * (v + oa)
    want = kelvin / fb - ob
    slack = 1e-12 * (abs(v) + abs(oa) + abs(ob)) * (abs(fa / fb) + 1)

    def same(x, y, what, scale=1.0):
        check(abs(x - y) <= slack * scale + 1e-300, '%s: got %s, expected %s', what, x, y)
    same(units.convert_units(v, a, b), want, 'convert_units(%r, %r, %r)' % (v, a, b))
    f, o = units.get_conversion_tuple(a, b)
    same((v + o) * f, want, 'get_conversion_tuple(%r, %r)' % (a, b))
    same(units.convert_units(units.convert_units(v, a, b), b, a), v, '%r to %r and back' % (a, b),
         4 * (abs(fb / fa) + 1))
    viac = units.convert_units(units.convert_units(v, a, c), c, b)
    check(abs(viac - want) <= 1e-11 * (abs(v) + abs(oa) + abs(ob) + abs(oc) + 300) * (abs(fa / fb) + 1) * (1 + abs(fc / fb)) *
          (1 + abs(fa / fc)), '%r to %r through %r: got %s, expected %s', a, b, c, viac, want)
    q = units.PhysicalQuantity(v, a)
    base = q.in_base_units()
    check(abs(base.value - kelvin) <= 1e-12 * fa * (abs(v) + abs(oa)), '%r %s in base units: got %r, expected %s K',
          v, a, base, kelvin)
    same(q.in_units_of(b).value, want, '%r in_units_of %r' % (a, b))
    # equality is equality of the temperature
    shifted = units.PhysicalQuantity(want + 1.0 + abs(want) * 0.01, b)
    check(not (q == shifted), '%r == %r', q, shifted)
    x, y = units.PhysicalQuantity(spec['w'], a), units.PhysicalQuantity(spec['w'], b)
    kx, ky = fa * (spec['w'] + oa), fb * (spec['w'] + ob)
    if abs(kx - ky) > 1e-6 * (abs(kx) + abs(ky)):
        check(not (x == y), '%r == %r, but they are %s K and %s K', x, y, kx, ky)
    if a == b:
        check(x == y, '%r != %r', x, y)
    # operations without a meaning on a scale with an offset
    m = units.PhysicalQuantity(2.0, 'm')
    if oa and not v:
        q = units.PhysicalQuantity(1.0, a)
    if oa:
        for what, fn in (('*', lambda: q * m), ('r*', lambda: m * q), ('/', lambda: q / m), ('r/', lambda: m / q),
                         ('number/', lambda: 1.0 / q), ('**', lambda: q ** 2), ('sqrt', lambda: abs(q).sqrt())):
            try:
                r = fn()
            except TypeError:
                pass
            else:
                check(False, '%s with the offset unit %s gives %r instead of an error', what, a, r)
    if oa != ob:
        for what, fn in (('+', lambda: x + y), ('-', lambda: x - y), ('<', lambda: x < y)):
            try:
                r = fn()
            except TypeError:
                pass
            else:
                if what == '<':
                    check(abs(kx - ky) < 1e-6 or r == (kx < ky), '%r %s %r is %r', x, what, y, r)
                elif fa != fb:
                    check(False, '%r %s %r gives %r', x, what, y, r)
        log.label('mixed scales')
    log.label('offset' if oa or ob else 'plain')
    log.nontrivial(a != b)


# ----------------------------------------------------------------- single definitions

@st.composite
def table_cases(draw):
    u, p, hist = draw(st.sampled_from(NAMES)), draw(st.sampled_from([''] + sorted(PREFIX) + ['da'] * 4)), draw(HISTORY)
    if draw(st.booleans()) and lookup(p[1:] + u) and not keyword.iskeyword(p[1:] + u):
        hist.append(p[1:] + u)
    return dict(u=u, p=p, hist=hist)


def run_table(spec, log):
    u = spec['p'] + spec['u']
    if u in OFFSET or u in UNITS or keyword.iskeyword(u):
        u = spec['u']
    units = fresh(spec['hist'])
    f, d, t = lookup(u)
    base = '*'.join('%s**%d' % (b, n) for b, n in sorted(d.items())) or 'unitless'
    got = units.convert_units(1.0, u, base)
    near(got, f, t + 1e-12, '1 %s in %s (earlier lookups %s)', u, base, spec['hist'])
    q = units.PhysicalQuantity(3.0, u).in_base_units()
    near(q.value, 3 * f, t + 1e-12, '3 %s in base units', u)
    near(q.in_units_of(base).value, 3 * f, t + 1e-12, '3 %s in base units, in %s', u, base)
    log.label('prefix' if spec['p'] else 'plain')
    log.nontrivial()


# ----------------------------------------------------------------- arithmetic

NUMS = st.sampled_from([0.5, 2.0, -1.0, 3, 4.0, 10.0, -0.25])


@st.composite
def arith(draw, depth):
    if depth == 0:
        return ['q', draw(st.sampled_from([1.0, 2.0, 0.5, 9.0, 100.0, -3.0, 16])), draw(unit_exprs(depth=1))]
    k = draw(st.sampled_from(['+', '-', '*', '*', '/', '/', '**', 'neg', 'abs', 'pos', 'sqrt', 'n*', '*n', '/n', 'n/',
                              '+s', '-s', '==', '<', 'sin', 'cos', 'tan', '+n', 'n+', 'n**', 'n-', 'q**q', 'in']))
    special = draw(st.integers(0, 5))
    if special == 0:            # an exact root
        a, n = draw(arith(depth - 1)), draw(st.sampled_from([2, 2, 3, 4]))
        return ['**', ['**', ['abs', a], n], draw(st.sampled_from([1. / n, 1. / n, -1. / n]))]
    if special == 1:            # compatible operands in different units
        u = draw(unit_exprs(depth=1))
        v = draw(st.sampled_from([1.0, 12.0, -2.0, 0.25]))
        return [draw(st.sampled_from(['+', '-', '==', '<', '/'])), ['q', draw(st.sampled_from([1.0, 3.0, -0.5])), u],
                ['q', v, draw(respell(u))]]
    if special == 2 and k in ('sin', 'cos', 'tan'):
        return [k, ['q', draw(st.sampled_from([30.0, 1.0, -0.5, 400.0])),
                    ['u', draw(st.sampled_from(['deg', 'rad', 'arc_minute', 'mrad', 'rev']))]]]
    a = draw(arith(depth - 1))
    if k in ('+', '-', '*', '/', '==', '<', 'q**q'):
        return [k, a, draw(arith(depth - 1))]
    if k in ('+s', '-s'):       # with a quantity respelled from a, so that it is compatible
        b = draw(arith(0))
        return [k, a, draw(st.sampled_from([2.0, -1.5, 10.0]))]
    if k == '**':
        return [k, a, draw(st.sampled_from([2, 3, -1, -2, 0, 1, 0.5, 1 / 3., -0.5, 0.25, 1.5]))]
    if k in ('n*', '*n', '/n', 'n/', '+n', 'n+', 'n**', 'n-'):
        return [k, a, draw(NUMS)]
    if k == 'in':
        return [k, a]
    return [k, a]


class Fail(Exception):
    pass


class Skip(Exception):
    pass


def ref(e):
    """('q', base value, dims, unit factor) or ('n', number) or ('b', bool); Fail where an error must be raised."""
    k = e[0]
    if k == 'q':
        try:
            f, d, t = evaluate(e[2])
        except (OverflowError, ZeroDivisionError):
            raise Skip()
        if t > 1e-10 or not in_range(f):
            raise Skip()
        return ('q', e[1] * f, d, f)
    a = ref(e[1])
    if a[0] == 'b':
        raise Skip()
    if k in ('+s', '-s'):
        if a[0] != 'q':
            raise Skip()
        sign = 1 if k == '+s' else -1
        return ('q', a[1] + sign * a[1] * e[2], a[2], a[3])
    if a[0] == 'n':
        raise Skip()         # plain numbers follow Python
    if k in ('+', '-', '*', '/', '==', '<', 'q**q'):
        b = ref(e[2])
        if b[0] != 'q':
            raise Skip()
        if k == 'q**q':
            raise Fail()
        if k in '+-':
            if a[2] != b[2]:
                raise Fail()
            return ('q', a[1] + b[1] if k == '+' else a[1] - b[1], a[2], a[3])
        if k == '==':
            if a[2] != b[2]:
                return ('b', False)
            if a[1] != b[1] and abs(a[1] - b[1]) <= 1e-9 * (abs(a[1]) + abs(b[1])):
                raise Skip()
            return ('b', None if a[1] == b[1] else False)
        if k == '<':
            if a[2] != b[2]:
                raise Fail()
            if abs(a[1] - b[1]) <= 1e-9 * (abs(a[1]) + abs(b[1])):
                raise Skip()
            return ('b', a[1] < b[1])
        if k == '*':
            d, v, f = mul(a[2], b[2]), a[1] * b[1], a[3] * b[3]
        else:
            if b[1] == 0:
                raise Skip()
            d, v, f = mul(a[2], b[2], -1), a[1] / b[1], a[3] / b[3]
        return ('q', v, d, f) if d else ('n', v)
    if k in ('+n', 'n+', 'n**', 'n-'):
        raise Fail()
    if k in ('n*', '*n'):
        return ('q', a[1] * e[2], a[2], a[3])
    if k == '/n':
        return ('q', a[1] / e[2], a[2], a[3])
    if k == 'n/':
        if a[1] == 0:
            raise Skip()
        return ('q', e[2] / a[1], mul({}, a[2], -1), 1 / a[3])
    if k == 'neg':
        return ('q', -a[1], a[2], a[3])
    if k == 'abs':
        return ('q', abs(a[1]), a[2], a[3])
    if k in ('pos', 'in'):
        return a
    if k in ('sin', 'cos', 'tan'):
        if a[2] != {'rad': 1}:
            raise Fail()
        if abs(a[1]) > 1e5:
            raise Skip()
        return ('n', getattr(math, k)(a[1]))
    n = 0.5 if k == 'sqrt' else e[2]
    if isinstance(n, int):
        if a[1] == 0 and n <= 0:
            raise Skip()
        return ('q', a[1] ** n, dict((b, p * n) for b, p in a[2].items() if n), a[3] ** n)
    if n == 1.5:
        raise Fail()        # documented: only integer and inverse integer exponents
    r = int(round(1 / n))
    if any(p % r for p in a[2].values()):
        raise Fail()
    if a[1] <= 0 or a[3] <= 0:
        raise Skip()
    return ('q', a[1] ** n, dict((b, p // r) for b, p in a[2].items()), a[3] ** n)


def calc(e, units):
    k = e[0]
    P = units.PhysicalQuantity
    if k == 'q':
        return P(e[1], text(e[2]))
    a = calc(e[1], units)
    if k in ('+s', '-s'):
        b = (a * e[2])
        return a + b if k == '+s' else a - b
    if k in ('+', '-', '*', '/', '==', '<', 'q**q'):
        b = calc(e[2], units)
        return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b,
                '==': lambda: a == b, '<': lambda: a < b, 'q**q': lambda: a ** b}[k]()
    n = e[2] if len(e) > 2 else None
    return {'n*': lambda: n * a, '*n': lambda: a * n, '/n': lambda: a / n, 'n/': lambda: n / a, '**': lambda: a ** n,
            '+n': lambda: a + n, 'n+': lambda: n + a, 'n-': lambda: n - a, 'n**': lambda: n ** a,
            'neg': lambda: -a, 'abs': lambda: abs(a), 'pos': lambda: +a, 'sqrt': lambda: a.sqrt(),
            'sin': lambda: a.sin(), 'cos': lambda: a.cos(), 'tan': lambda: a.tan(),
            'in': lambda: a.in_base_units()}[k]()


@st.composite
def arith_cases(draw):
    return dict(e=draw(arith(draw(st.integers(1, 3)))), hist=draw(HISTORY))


def show(e):
    if e[0] == 'q':
        return '%r{%s}' % (e[1], text(e[2]))
    return '%s(%s)' % (e[0], ', '.join(show(x) if isinstance(x, list) else repr(x) for x in e[1:]))


def run_arith(spec, log):
    units = fresh(spec['hist'])
    e = spec['e']
    try:
        want = ref(e)
    except (Skip, OverflowError, ZeroDivisionError):
        log.label('skipped')
        return
    except Fail:
        want = None
    try:
        got = calc(e, units)
    except TypeError as err:
        check(want is None, '%s raises TypeError(%s)', show(e), err)
        log.label('refused')
        log.nontrivial()
        return
    check(want is not None, '%s gives %r instead of an error', show(e), got)
    log.label(e[0])
    log.nontrivial()
    if want[0] == 'b':
        check(want[1] is None or got is want[1] or bool(got) == want[1], '%s is %r, expected %r', show(e), got, want[1])
        return
    if want[0] == 'n':
        check(not isinstance(got, units.PhysicalQuantity), '%s is %r, expected the number %s', show(e), got, want[1])
        check(abs(got - want[1]) <= 1e-9 * (abs(want[1]) + 1e-6 * (e[0] in ('sin', 'cos', 'tan'))) + 1e-300,
              '%s is %r, expected %s', show(e), got, want[1])
        return
    _, v, d, f = want
    if not in_range(f) or not (abs(v) < 1e200):
        return
    check(isinstance(got, units.PhysicalQuantity), '%s is %r, expected a quantity', show(e), got)
    base = '*'.join('%s**%d' % (b, n) for b, n in sorted(d.items())) or 'unitless'
    check(got.is_compatible(base), '%s is %r, expected the dimensions of %s', show(e), got, base)
    slack = 1e-9 * max(abs(v), spread(e) * 1e-3)
    x = got.in_units_of(base)
    check(abs(x.value - v) <= slack, '%s is %r, %r in base units, expected %s', show(e), got, x, v)
    y = got.in_base_units()
    check(abs(y.value - v) <= slack and y.is_compatible(base), '%s is %r, in_base_units gives %r, expected %s %s',
          show(e), got, y, v, base)
    # its printed form is the same quantity
    if isinstance(got.value, float) and 'e' not in repr(f) and d:
        s = str(got)
        z = units.PhysicalQuantity(s)
        check(z.is_compatible(base) and abs(z.in_units_of(base).value - v) <= slack + 1e-9 * abs(v),
              '%s prints as %r, which is %s in base units instead of %s', show(e), s, z.in_units_of(base), v)


def spread(e):
    """Largest magnitude met in the sums of an expression (cancellation)."""
    if e[0] == 'q':
        return abs(e[1] * evaluate(e[2])[0])
    return max(spread(x) for x in e[1:] if isinstance(x, list))


# ----------------------------------------------------------------- user libraries

@st.composite
def library_cases(draw):
    n = draw(st.integers(1, 6))
    defs = []
    for i in range(n):
        base = draw(st.sampled_from(['m', 'kg', 's', 'K', 'N', 'lb', 'W', 'degR'] + ['zq%d' % j for j in range(i)] * 2))
        if base in ('K', 'degR') and draw(st.booleans()):
            defs.append(['offset', draw(st.sampled_from([1.0, 0.8, 1.8])), base, draw(st.sampled_from([10.0, 273.15]))])
        else:
            defs.append(['plain', draw(st.sampled_from([2.0, 0.5, 12.0])), base,
                         draw(st.sampled_from([1, 1, 2])) if base != 'zz' else 1])
    order = draw(st.permutations(list(range(n))))
    return dict(defs=defs, order=list(order), v=draw(VALUES), how=draw(st.sampled_from(['file', 'name'])))


def run_library(spec, log):
    units = fresh()
    try:
        import tempfile
        lines = ['[units]']
        ref = {}
        for i, (kind, f, base, x) in enumerate(spec['defs']):
            bf, bd, bo = ref[base] if base in ref else lookup(base)[:2] + (0.0,)
            if bo:
                return          # not a valid definition: a product with an offset unit
            if kind == 'offset':
                ref['zq%d' % i] = (f * bf, bd, x)
            else:
                ref['zq%d' % i] = (f * bf ** x, dict((k, v * x) for k, v in bd.items()), 0.0)
        for i in spec['order']:
            kind, f, base, x = spec['defs'][i]
            if kind == 'offset':
                lines.append('zq%d: %r, %s, %r, a comment' % (i, f, base, x))
            else:
                lines.append('zq%d: %r*%s**%d, a comment' % (i, f, base, x))
        body = '\n'.join(lines) + '\n'
        if spec['how'] == 'file':
            units.update_library(io.StringIO(body))
        else:
            fd, path = tempfile.mkstemp()
            os.write(fd, body.encode())
            os.close(fd)
            try:
                units.update_library(path)
            finally:
                os.unlink(path)
        for n, (f, d, o) in sorted(ref.items()):
            base = '*'.join('%s**%d' % (b, p) for b, p in sorted(d.items())) or 'unitless'
            got = units.convert_units(spec['v'], n, base)
            want = (spec['v'] + o) * f
            check(abs(got - want) <= 1e-11 * f * (abs(spec['v']) + o), '%s %s is %s %s, expected %s (library %r)',
                  spec['v'], n, got, base, want, body)
        near(units.convert_units(1.0, 'km', 'ft'), 1000 / 0.3048, 1e-12, 'km after an update')
        log.nontrivial(len(ref) > 1)
        log.label('shuffled' if spec['order'] != sorted(spec['order']) else 'in order')
    finally:
        fresh()


FACETS = [Facet('convert', convert_cases, run_convert, 3000, rule='the two unit expressions differ', cpu_limit=30),
          Facet('temperature', temp_cases, run_temp, 1500, rule='different scales', cpu_limit=30),
          Facet('table', table_cases, run_table, 1500, rule='always', cpu_limit=30),
          Facet('arithmetic', arith_cases, run_arith, 3000, rule='an operation with a defined outcome', cpu_limit=30),
          Facet('library', library_cases, run_library, 600, rule='more than one definition', cpu_limit=30)]
