"""C23: namelists are written, read and loaded without loss."""
import math
import os
import re

import numpy as np
from hypothesis import strategies as st

from pbt.core import Facet, Scratch, check

ASSUMPTIONS = ['strings hold no line breaks and no tabs', 'an array of one value reads back as that value (the text of both is the same), and lists and tuples as arrays',
               'comments without exclamation mark do not begin with an assignment, are not made of values only and do not end with a group end',
               'without a title, the first ungrouped line is the title (as documented)', 'names begin with a letter']

NAMES = ['x', 'y', 'velocity', 'x_1', 'Alpha', 'T', 'F', 'e5', 'nan', 'C', 'True1', 'D', 'INTVAR', 'p2', 'infl', 'long_name_of_a_variable', 'END', 'Tx', 'E']
GROUPS = ['OPTION', 'opt_2', 'G1', 'group', 'T', 'C', 'ENDING', 'a', 'Option']
STRINGS = ['', 'a', "it's", 'say "x"', 'x = 5', 'a!b', '!', 'path/to/', '/', '&END', '$END', 'T', '5', '1, 2', ' lead', 'trail ', "''", '"', "'", "a'b\"c", '(1) = 4', '3*4', 'a b  c', '$', 'nan', '&G', "x''"]
COMMENTS = ['! plain', "! x = 5 /", "!'", 'This is a comment', 'see x = 5 of the manual', '12 monkeys', "don't", 'T is the temperature', 'page 3/4 of it', 'cost in $ & more', 'True story',
            "'quoted' words", '!', '! "', 'C', '(1) = 4', '. x', 'x is 3', '- 4', '1, 2 and 3', '!&G', '! $END', 'a ! / b', 'Inf is large', 'wind & waves x = 3', 'x == 3', '3 = x']
TITLES = ['Testing', 'A title with x = 5', 'Title / with $ and & inside', '', '12', "It's", 'Title !', 'T', "'T'", 'x = 3 /']
FREE = ['FREEFORM', '  spaced   columns  3 4', 'x = 5', '12 13 14', 'a & b', 'cost $', '! note', '/', "'text'", 'T', 'END', '3/4']

floats = st.one_of(st.floats(), st.sampled_from([0.0, -0.0, 1e-7, -1e-7, -3e5, 1e16, -1e22, .1 + .2, 1 / 3., 5e-324, 1.7e308, 1e-5, 100.0, float('nan'), float('inf'), -float('inf')]), st.floats(-1e3, 1e3))
STRV = st.one_of(st.sampled_from(STRINGS), st.text("ab'\"!/&$ =,(1*)T.", max_size=8))


def fenc(v):
    return v.hex() if v == v and not math.isinf(v) else repr(v)


def fdec(s):
    return float(s) if s in ('nan', 'inf', '-inf') else float.fromhex(s)


SCALAR = {'f': floats.map(fenc), 'i': st.integers(-10 ** 15, 10 ** 15), 's': STRV, 'b': st.booleans()}
KIND = st.sampled_from('ffisb')


@st.composite
def value_spec(draw):
    kind = draw(KIND)
    form = draw(st.sampled_from(['py', 'py', 'np', 'list', 'arr', 'arr', 'arr2', 'arr2']))
    if form in ('py', 'np'):
        return dict(kind=kind, form=form, v=draw(SCALAR[kind]), dt=draw(st.integers(0, 3)))
    if form == 'arr2':
        m, n = draw(st.integers(1, 4)), draw(st.integers(1, 4))
        return dict(kind=kind, form=form, v=[[draw(SCALAR[kind]) for _ in range(n)] for _ in range(m)], dt=draw(st.integers(0, 3)))
    return dict(kind=kind, form=form, v=draw(st.lists(SCALAR[kind], min_size=1, max_size=6)), dt=draw(st.integers(0, 3)))


def build(spec):
    """The Python value of a value specification."""
    def dec(v):
        return [dec(x) for x in v] if isinstance(v, list) else fdec(v) if spec['kind'] == 'f' else v
    v = dec(spec['v'])
    dt = {'f': ['float64', 'float64', 'float32', 'float64'], 'i': ['int64', 'int64', 'int32', 'int16'], 's': ['U'] * 4, 'b': ['bool'] * 4}[spec['kind']][spec['dt']]
    if spec['kind'] == 'i' and dt != 'int64':
        lim = 2 ** 31 if dt == 'int32' else 2 ** 15
        v = (np.array(v) % lim).tolist()
    if spec['form'] in ('py', 'list'):
        return v
    with np.errstate(all='ignore'):
        if spec['form'] == 'np':
            return v if spec['kind'] == 's' else np.dtype(dt).type(v)
        return np.array(v, dtype=None if dt == 'U' else dt)


def plain(v):
    """What a value must read back as: nested lists of Python values, or one value."""
    if isinstance(v, (np.ndarray, np.generic)):
        v = v.tolist()
    if isinstance(v, (list, tuple)):
        v = [plain(x) for x in v]
        return v
    return str(v) if isinstance(v, str) else v


def norm(v):
    v = plain(v)
    if isinstance(v, list) and len(v) == 1 and not isinstance(v[0], list):
        return v[0]
    return v


def equal(a, b, strict=True):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(equal(x, y, strict) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    if strict and type(a) is not type(b):
        return False
    if a != a or b != b:
        return a != a and b != b
    return a == b


def same(got, want, what):
    check(equal(norm(got), norm(want)), '%s is %r, not %r', what, got, want)


def comp_class():
    from openmdao.core.component import Component

    class Code(Component):
        """Component with the given parameters."""

        def __init__(self, variables):
            super(Code, self).__init__()
            for name, value in variables:
                obj = not (isinstance(value, float) or isinstance(value, np.ndarray) and value.dtype.kind == 'f')
                self.add_param(name, value, **({'pass_by_obj': True} if obj else {}))

        def solve_nonlinear(self, params, unknowns, resids):
            pass
    return Code


def problem(comp):
    from openmdao.core.group import Group
    from openmdao.core.problem import Problem
    prob = Problem(root=Group())
    prob.root.add('code', comp)
    return prob


# ---------------------------------------------------------------- writing and reading back

CARD = st.one_of(st.fixed_dictionaries(dict(t=st.just('var'), name=st.integers(0, len(NAMES) - 1), value=value_spec(), how=st.sampled_from(['new', 'new', 'var', 'path']))),
                 st.fixed_dictionaries(dict(t=st.just('var'), name=st.integers(0, len(NAMES) - 1), value=value_spec(), how=st.sampled_from(['new', 'new', 'var', 'path']))),
                 st.fixed_dictionaries(dict(t=st.just('comment'), text=st.integers(0, len(COMMENTS) - 1))),
                 st.fixed_dictionaries(dict(t=st.just('empty'), name=st.integers(0, len(NAMES) - 1), two=st.booleans())))
GROUP = st.one_of(st.fixed_dictionaries(dict(name=st.integers(0, len(GROUPS) - 1), cards=st.lists(CARD, min_size=1, max_size=6))),
                  st.fixed_dictionaries(dict(name=st.integers(0, len(GROUPS) - 1), cards=st.lists(CARD, min_size=1, max_size=6))),
                  st.fixed_dictionaries(dict(free=st.integers(0, len(FREE) - 1))))


def round_specs():
    return st.fixed_dictionaries(dict(title=st.integers(0, len(TITLES) - 1), groups=st.lists(GROUP, min_size=1, max_size=5), delim=st.sampled_from([', ', ', ', ',', ' ']),
                                      term=st.sampled_from(['/', '/', '$END', '&END', '$end']), setup=st.booleans(), again=st.booleans(), fp=st.booleans()))


def run_round(spec, log):
    from openmdao.util.namelist_util import Namelist
    title = TITLES[spec['title']]
    groups = spec['groups']
    if not title and 'free' in groups[0]:
        title = 'Title'
    # variables the component owns
    own = {}
    for g, group in enumerate(groups):
        for k, card in enumerate(group.get('cards', [])):
            if card['t'] == 'var' and card['how'] != 'new':
                name = NAMES[card['name']]
                path = 'v%d_%d:%s' % (g, k, name) if card['how'] == 'path' else name
                if path not in own:
                    own[path] = build(card['value'])
    comp = comp_class()(sorted(own.items()))
    if spec['setup']:
        prob = problem(comp)
        prob.setup(check=False)
        prob.run()
    nml = Namelist(comp)
    nml.set_title(title)
    nml.delimiter = spec['delim']
    nml.terminator = spec['term']
    expected = []
    for g, group in enumerate(groups):
        if 'free' in group:
            nml.add_group(FREE[group['free']])
            expected.append((FREE[group['free']], None))
            continue
        gname = GROUPS[group['name']]
        nml.add_group(gname)
        cards = []
        for k, card in enumerate(group['cards']):
            if card['t'] == 'comment':
                nml.add_comment(COMMENTS[card['text']])
                log.label('comment')
                continue
            name = NAMES[card['name']]
            if card['t'] == 'empty':
                nml.add_newvar(name, np.zeros((0, 0) if card['two'] else (0,)))
                continue
            if card['how'] == 'new':
                value = build(card['value'])
                nml.add_newvar(name, value)
            else:
                path = 'v%d_%d:%s' % (g, k, name) if card['how'] == 'path' else name
                value = own[path]
                nml.add_var(path)
            cards.append((name, value))
            log.label(card['value']['kind'] + '-' + card['value']['form'])
        expected.append((gname, cards))
    with Scratch() as tmp:
        path = os.path.join(tmp, 'a.nml')
        nml.set_filename(path)
        nml.generate()
        text = open(path).read()
        if spec['fp']:
            # another reader with its own delimiters must not disturb this one
            from openmdao.util.file_wrap import FileParser
            FileParser().set_delimiters(',=/')
        back = Namelist(comp)
        back.set_filename(path)
        back.parse_file()
        compare(back, title, expected, text)
        structure(text, title, expected, spec['term'])
        if spec['again']:
            # written once more from what was read, the namelist still says the same
            path2 = os.path.join(tmp, 'b.nml')
            back.set_filename(path2)
            cardless = [k for k, (_, cards) in enumerate(expected) if cards is not None and not cards]
            for k in cardless:
                back.cards[k].append(type(back.cards[0][0])('C', '! none', 1) if any(back.cards) and back.cards[0] else card_comment('! none'))
            back.generate()
            third = Namelist(comp)
            third.set_filename(path2)
            third.parse_file()
            compare(third, title, expected, open(path2).read())
    log.nontrivial(any(cards for _, cards in expected if cards))


def card_comment(text):
    from openmdao.util.namelist_util import Card
    return Card('C', text, 1)


def compare(nml, title, expected, text):
    check(nml.title == title.strip(), 'title is %r, not %r in\n%s', nml.title, title, text)
    names = [name for name, _ in expected]
    check([g.strip() for g in nml.groups] == [n.strip() for n in names], 'groups are %r, not %r in\n%s', nml.groups, names, text)
    for k, (name, cards) in enumerate(expected):
        got = [c for c in nml.cards[k] if not c.is_comment]
        want = cards or []
        check([c.name for c in got] == [c[0] for c in want], 'cards of group %d are %r, not %r in\n%s', k, [(c.name, c.value) for c in got], want, text)
        for c, (cname, value) in zip(got, want):
            same(c.value, value, 'card %s of group %s (%d)' % (cname, name, k))
    for gname in set(names):
        first = names.index(gname)
        cards = expected[first][1] or []
        if expected[first][1] is None:
            continue
        for cname in {c[0] for c in cards} | {'missing_card'}:
            want = [v for n, v in cards if n == cname]
            try:
                got = nml.find_card(gname, cname)
            except RuntimeError as err:
                check(not want and cname in str(err), 'find_card(%s, %s) fails: %s', gname, cname, err)
            else:
                check(bool(want), 'find_card(%s, %s) is %r, but there is no such card', gname, cname, got)
                same(got, want[0], 'find_card(%s, %s)' % (gname, cname))


def structure(text, title, expected, term):
    """Each card stands in its own group of a well-formed namelist."""
    lines = text.split('\n')
    check(lines[0] == title and lines[-1] == '', 'first line is %r', lines[0])
    pos = 1
    for name, cards in expected:
        if cards is None:
            check(lines[pos] == name, 'line %d is %r, not %r', pos, lines[pos], name)
            pos += 1
            continue
        check(lines[pos] == '&' + name, 'line %d is %r, not the header of %s', pos, lines[pos], name)
        pos += 1
        end = pos
        while lines[end] != term:
            end += 1
            check(end < len(lines), 'group %s has no end in\n%s', name, text)
        seen = [m.group(1) for m in (re.match(r'  ([A-Za-z]\w*)(?:\(1,1\))? ?= ', line + ' ') for line in lines[pos:end]) if m]
        check([s for s in seen] == [c[0] for c in cards], 'group %s holds %r, not %r', name, seen, [c[0] for c in cards])
        pos = end + 1
    check(pos == len(lines) - 1, 'text continues after the last group:\n%s', text)


# ---------------------------------------------------------------- files of other writers

NUM = st.tuples(st.floats(-1000, 1000), st.integers(0, 14)).map(list)


def number(x, sel):
    """Text and value of a number."""
    v = round(x, 3) + 0.0
    forms = [repr(v), '%.4e' % v, '%.3E' % v, ('%.4e' % v).replace('e', 'D'), ('%.2e' % v).replace('e', 'd'), '%d' % int(v), '%+d' % int(v), '%d.' % int(v), '%de-3' % int(v), '%dE+2' % int(v),
             'NaN', 'Inf', '-Inf', '%+.3f' % v, ('%.3f' % (abs(v) % 1))[1:] if abs(v) % 1 < .9994 else '.25']
    t = forms[sel % len(forms)]
    try:
        return t, int(t)
    except ValueError:
        return t, float(t.lower().replace('d', 'e'))


BOOLS = [('T', True), ('.TRUE.', True), ('True', True), ('TRUE', True), ('true', True), ('.T.', True), ('F', False), ('.FALSE.', False), ('False', False), ('FALSE', False), ('false', False), ('.F.', False)]


@st.composite
def read_card(draw):
    kind = draw(st.sampled_from(['num', 'num', 'str', 'bool']))
    form = draw(st.sampled_from(['one', 'one', 'many', 'many', 'index', 'repeat', 'repeat2', 'rows'] if kind == 'num' else ['one', 'many', 'index', 'repeat'] if kind == 'str' else ['one', 'many']))
    elem = {'num': NUM, 'str': st.tuples(st.integers(0, len(STRINGS) - 1), st.booleans()).map(list), 'bool': st.integers(0, len(BOOLS) - 1)}[kind]
    n = 1 if form in ('one', 'repeat', 'repeat2') else draw(st.integers(1 if form in ('index', 'rows') else 2, 6))
    card = dict(kind=kind, form=form, name=draw(st.integers(0, len(NAMES) - 1)), v=[draw(elem) for _ in range(n)], eq=draw(st.sampled_from([' = ', '=', ' =', '= ', '   =  '])),
                seps=draw(st.lists(st.sampled_from([', ', ',', ' , ', '  ', ' ']), min_size=3, max_size=3)), split=draw(st.lists(st.integers(0, 5), max_size=2)), k=draw(st.integers(1, 4)))
    if form == 'rows':
        card['rows'] = draw(st.integers(1, 3))
    return card


LINE = st.one_of(st.fixed_dictionaries(dict(cards=st.lists(read_card(), min_size=1, max_size=3), sep=st.sampled_from([', ', ',', '  ']), trail=st.sampled_from(['', ',', ' ,', ' ! note', ', ! x = 3 /', "  !'"]))),
                 st.fixed_dictionaries(dict(cards=st.lists(read_card(), min_size=1, max_size=1), sep=st.sampled_from([', ', ',', '  ']), trail=st.sampled_from(['', '', ',', ' ! note']))),
                 st.fixed_dictionaries(dict(comment=st.integers(0, len(COMMENTS) - 1))), st.just({'blank': 1}))
RGROUP = st.one_of(st.fixed_dictionaries(dict(name=st.integers(0, len(GROUPS) - 1), mark=st.sampled_from('&$'), indent=st.integers(0, 4), lines=st.lists(LINE, max_size=5),
                                              head=st.lists(read_card(), max_size=2), end=st.integers(0, 4), inline=st.booleans(), note=st.booleans())),
                   st.fixed_dictionaries(dict(name=st.integers(0, len(GROUPS) - 1), mark=st.sampled_from('&$'), indent=st.integers(0, 4), lines=st.lists(LINE, max_size=5),
                                              head=st.just([]), end=st.integers(0, 4), inline=st.booleans(), note=st.booleans())),
                   st.fixed_dictionaries(dict(free=st.integers(0, len(FREE) - 1))), st.just({'blank': 1}))
ENDS = ['/', '$END', '&END', '$end', '&end']


def read_specs():
    return st.fixed_dictionaries(dict(title=st.integers(0, len(TITLES) - 1), groups=st.lists(RGROUP, min_size=1, max_size=4), tail=st.booleans(), fp=st.booleans()))


def card_text(card, flat):
    """Lines of a card and its expected value.  A flat card stays on one line."""
    name = NAMES[card['name']]
    if card['kind'] == 'num':
        items = [number(*v) for v in card['v']]
    elif card['kind'] == 'str':
        items = []
        for k, double in card['v']:
            s = STRINGS[k]
            q = '"' if double else "'"
            items.append((q + s.replace(q, q + q) + q, s))
    else:
        items = [BOOLS[k] for k in card['v']]
    texts = [t for t, _ in items]
    values = [v for _, v in items]
    seps = card['seps']
    if card['form'] in ('rows', 'index', 'many', 'one') and any(isinstance(v, float) for v in values):
        values = [float(v) for v in values]
    if card['form'] == 'rows' and not flat:
        lines, rows = [], []
        for r in range(card['rows']):
            lines.append('%s(1,%d)%s%s' % (name, r + 1, card['eq'], ''.join(t + (seps[k % 3] if k + 1 < len(texts) else '') for k, t in enumerate(texts))))
            rows.append(values)
        return lines, (name, rows)
    if card['form'] == 'repeat':
        return ['%s%s%d*%s' % (name, card['eq'], card['k'], texts[0])], (name, values * card['k'])
    if card['form'] == 'repeat2':
        if isinstance(values[0], int):
            # n*v comes first when both are integers
            texts, values = [texts[0] + '.0'], [float(values[0])]
        return ['%s%s%s*%d' % (name, card['eq'], texts[0], card['k'])], (name, values * card['k'])
    if card['form'] == 'index':
        pad = [''] if card['kind'] == 'str' else [0]
        values = (pad if not isinstance(values[0], float) else [0.0]) * (card['k'] - 1) + values
        return ['%s(%d)%s%s' % (name, card['k'], card['eq'], ''.join(t + (seps[k % 3] if k + 1 < len(texts) else '') for k, t in enumerate(texts)))], (name, values)
    lines = ['%s%s' % (name, card['eq'])]
    cuts = set() if flat else {c + 1 for c in card['split']}
    for k, t in enumerate(texts):
        if k in cuts:
            # a line may end with a comma or not
            lines[-1] = lines[-1].rstrip() if seps[k % 3].strip() == '' else lines[-1]
            lines.append('     ')
        lines[-1] += t + (seps[k % 3] if k + 1 < len(texts) else '')
    return lines, (name, values)


def run_read(spec, log):
    from openmdao.util.namelist_util import Namelist
    title = TITLES[spec['title']]
    first = next((g for g in spec['groups'] if 'blank' not in g), None)
    if not title and (first is None or 'free' in first):
        title = 'Title'
    lines, expected = [title], []
    for group in spec['groups']:
        if 'blank' in group:
            lines.append('   ')
            continue
        if 'free' in group:
            lines.append(FREE[group['free']])
            expected.append((FREE[group['free']], None))
            continue
        cards = []
        name = GROUPS[group['name']]
        head = ' ' * group['indent'] + group['mark'] + name
        end = ENDS[group['end']]
        for card in group['head']:
            if card['form'] == 'rows':
                continue
            text, want = card_text(card, True)
            head += (', ' if cards else '  ') + text[0]
            cards.append(want)
            log.label('cards in header')
        lines.append(head)
        last = None
        for line in group['lines']:
            if 'blank' in line:
                lines.append('')
            elif 'comment' in line:
                lines.append('  ' + COMMENTS[line['comment']])
                log.label('comment')
                last = None
                continue
            else:
                many = len(line['cards']) > 1
                text = ''
                for card in line['cards']:
                    if many and card['form'] == 'rows':
                        continue
                    ls, want = card_text(card, many)
                    if text and text.count('\n') == 0 and not many:
                        pass
                    text += (line['sep'] if text else '') + '\n'.join(ls)
                    cards.append(want)
                    log.label(card['kind'] + '-' + card['form'])
                if text:
                    lines.extend(('  ' + text + line['trail']).split('\n'))
                    last = line
        if group['inline'] and last is not None and '!' not in last['trail'] and lines[-1].strip():
            lines[-1] += ' ' + end
            log.label('end on data line')
        elif group['inline'] and not group['lines']:
            lines[-1] += ' ' + end
            log.label('end on header line')
        else:
            lines.append(' ' + end)
        if group['note']:
            lines[-1] += ' ! end'
        expected.append((name, cards))
    text = '\n'.join(lines) + ('\n' if spec['tail'] else '')
    log.label('%d groups' % len(expected))
    comp = comp_class()([('zz', 1.0)])
    if spec['fp']:
        from openmdao.util.file_wrap import FileParser
        FileParser().set_delimiters(',=/')
    with Scratch() as tmp:
        path = os.path.join(tmp, 'a.nml')
        with open(path, 'w') as f:
            f.write(text)
        nml = Namelist(comp)
        nml.set_filename(path)
        nml.parse_file()
        check(open(path).read() == text, 'reading changes the file')
        compare(nml, title, expected, text)
    log.nontrivial(any(cards for _, cards in expected if cards))


# ---------------------------------------------------------------- loading into a component

def load_specs():
    var = st.fixed_dictionaries(dict(name=st.integers(0, len(NAMES) - 1), value=value_spec(), where=st.sampled_from(['top', 'top', 'a', 'b:c', 'none']), lower=st.booleans()))
    group = st.fixed_dictionaries(dict(name=st.integers(0, len(GROUPS) - 1), vars=st.lists(var, max_size=4), comment=st.booleans(), rules=st.sampled_from([None, ['a'], ['b:c'], ['a', 'b:c'], ['zz']])))
    return st.fixed_dictionaries(dict(groups=st.lists(group, min_size=1, max_size=4), rules=st.booleans(), setup=st.booleans(), single=st.one_of(st.none(), st.none(), st.integers(0, 3)),
                                      ignore=st.lists(st.integers(0, len(NAMES) - 1), max_size=3), freeform=st.booleans(), skip=st.lists(st.integers(0, len(NAMES) - 1), max_size=2)))


def like(value):
    """Another value of the same kind and shape."""
    if isinstance(value, (bool, np.bool_)):
        return False
    if isinstance(value, str):
        return 'old'
    if isinstance(value, (int, np.integer)):
        return -7
    if isinstance(value, (float, np.floating)):
        return -7.5
    if isinstance(value, list):
        return ['old']
    if value.dtype.kind == 'f':
        return np.zeros(value.shape) - 7.5
    return np.zeros(value.shape, dtype=value.dtype)


def run_load(spec, log):
    from openmdao.util.namelist_util import Namelist
    params = {}      # path -> initial value
    deck = []        # (group, [(name, value)])
    if spec['freeform']:
        deck.append(('FREE', None))
    for group in spec['groups']:
        cards = []
        for var in group['vars']:
            name = NAMES[var['name']]
            value = build(var['value'])
            if isinstance(value, np.ndarray) and value.dtype.kind == 'f' and value.ndim == 2 and value.shape[0] * value.shape[1] == 0:
                continue
            cards.append((name, value))
            if var['where'] != 'none':
                pre = '' if var['where'] == 'top' else var['where'] + ':'
                path = pre + (name.lower() if var['lower'] else name)
                params.setdefault(path, like(value))
        deck.append((GROUPS[group['name']], cards))
    params.setdefault('untouched', 3.25)
    params.setdefault('a:untouched', 'keep')
    rules = None
    if spec['rules']:
        rules = {}
        for group in spec['groups']:
            if group['rules'] is not None:
                rules.setdefault(GROUPS[group['name']], group['rules'])
        log.label('rules')
        if not rules:
            rules = None
    ignore = [NAMES[k] for k in spec['ignore']] or None
    if ignore:
        ignore[0] = ignore[0].lower()

    # what must happen
    final = dict(params)
    empty, unlisted, unlinked, used = {}, {}, [], []
    which = range(len(deck))
    if spec['single'] is not None and spec['single'] < len(deck):
        which = [spec['single']]
        log.label('single')
    for k in which:
        gname, cards = deck[k]
        if not cards:
            empty[k] = gname
            continue
        if gname in used:
            unlisted[k] = gname
            log.label('repeated group')
            continue
        used.append(gname)
        if rules and gname not in rules:
            unlisted[k] = gname
            continue
        for name, value in cards:
            # the card goes to the last of the listed containers that has it
            paths = []
            for cont in (rules[gname] if rules else [None]):
                for n in (name, name.lower()):
                    p = n if cont is None else cont + ':' + n
                    if p in params:
                        paths.append(p)
                        break
            if not paths:
                if not ignore or name not in ignore and name.lower() not in ignore:
                    unlinked.append(name)
                continue
            final[paths[-1]] = value
            log.label('loaded')
    comp = comp_class()(sorted(params.items()))
    prob = problem(comp)
    if spec['setup']:
        prob.setup(check=False)
    with Scratch() as tmp:
        path = os.path.join(tmp, 'a.nml')
        writer = Namelist(comp_class()([('zz', 1.0)]))
        writer.set_filename(path)
        writer.set_title('Title')
        for k, (gname, cards) in enumerate(deck):
            writer.add_group(gname)
            if cards is None:
                continue
            if not cards or k and spec['groups'][k - len(deck)]['comment']:
                writer.add_comment('! note')
            for name, value in cards:
                writer.add_newvar(name, value)
        writer.generate()
        nml = Namelist(comp)
        nml.set_filename(path)
        try:
            nml.load_model()
        except RuntimeError as err:
            check('must be read with parse_file' in str(err), 'load_model before parse_file: %s', err)
        else:
            check(False, 'load_model works before parse_file')
        nml.parse_file()
        result = nml.load_model(rules=rules, ignore=ignore, **({'single_group': which[0]} if isinstance(which, list) else {}))
        check(dict(result[0]) == empty, 'empty groups are %r, not %r', dict(result[0]), empty)
        check(dict(result[1]) == unlisted, 'unlisted groups are %r, not %r', dict(result[1]), unlisted)
        check(list(result[2]) == unlinked, 'unlinked variables are %r, not %r', result[2], unlinked)

        def verify(when):
            for p in sorted(final):
                if prob_ready[0]:
                    got = comp.params[p]
                else:
                    got = comp._init_params_dict[p]['val']
                check(equal(norm(got), norm(final[p]), strict=False), '%s: %s is %r, not %r', when, p, got, final[p])
        prob_ready = [spec['setup']]
        verify('after load_model')
        # a namelist written from the component holds the loaded values
        conts = sorted({p.rsplit(':', 1)[0] for p in params if ':' in p})
        out = Namelist(comp)
        out.set_filename(os.path.join(tmp, 'b.nml'))
        skip = [NAMES[k] for k in spec['skip']]
        for cont in conts:
            out.add_group(cont.replace(':', '_'))
            out.add_comment('! variables')
            out.add_container(cont, skip=skip)
        out.generate()
        back = Namelist(comp)
        back.set_filename(os.path.join(tmp, 'b.nml'))
        back.parse_file()
        for k, cont in enumerate(conts):
            want = [(p[len(cont) + 1:], final[p]) for p in sorted(params) if p.startswith(cont + ':')]
            want = [w for w in want if w[0] not in skip]
            got = [(c.name, c.value) for c in back.cards[k]]
            check([g[0] for g in got] == [w[0].split(':')[-1] for w in want], 'add_container(%s) gives %r, not %r', cont, got, want)
            for g, w in zip(got, want):
                check(equal(norm(g[1]), norm(w[1]), strict=False), 'add_container: %s is %r, not %r', w[0], g[1], w[1])
    log.nontrivial(bool(params) and len(final) > 2)


FACETS = [
    Facet('roundtrip', round_specs, run_round, quick=1200, thorough=12000, rule='a variable is written and read back'),
    Facet('read', read_specs, run_read, quick=1500, thorough=15000, rule='a card is read'),
    Facet('load', load_specs, run_load, quick=600, thorough=6000, rule='the component has loadable parameters'),
]
