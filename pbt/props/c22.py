"""C22: values written into a template appear at their place and are read back."""
import math
import os

import numpy as np
from hypothesis import strategies as st

from pbt.core import Facet, Scratch, check

ASSUMPTIONS = ['words begin with a letter or are numbers (a field like 3x is read as two, as documented)', 'an anchor occurs at most once per line',
               'a reverse search for the same anchor again is finding C22-reverse', 'full-line comments without end-of-line comments are finding C22-comment']

DELIMS = [' ', ' \t', ', ', ',', '= ', ' ,;', '|', ' ^', ' ]', ' \\^', ':;', ' /']
ANCHORS = ['ANCHOR', 'Key_b', 'begin']
WORDS = ['abc', 'A', 'x_1', 'nano', 'Infra', 'Test', 'False', 'info', 'nan_', 'e5', 'D3', 'E', 'inf2', 'Word.txt', 'p(1)', 'q@b', 'a+b', "it's", '"q"', 'Nan']

floats = st.one_of(st.floats(allow_nan=True, allow_infinity=True, width=64), st.sampled_from([0.0, -0.0, 1e-7, -1e-7, -3e5, 1e16, -1e22, .1 + .2, 1 / 3., 5e-324, 1.7e308, 123456789.125]),
                   st.floats(-1e3, 1e3))
VALUE = st.one_of(floats.map(lambda v: {'f': v.hex() if v == v and not math.isinf(v) else repr(v)}), st.integers(-10 ** 15, 10 ** 15).map(lambda v: {'i': v}),
                  st.sampled_from(WORDS).map(lambda v: {'s': v}), st.booleans().map(lambda v: {'b': v}))
FLOATV = floats.map(lambda v: {'f': v.hex() if v == v and not math.isinf(v) else repr(v)})


def dec(v):
    if 'f' in v:
        return float(v['f']) if v['f'] in ('nan', 'inf', '-inf') else float.fromhex(v['f'])
    return list(v.values())[0]


def literal(draw_num, sel):
    """Number as text in one of many notations: (text, value)."""
    v = round(draw_num, 3)
    forms = [repr(v), '%.4e' % v, '%.3E' % v, ('%.4e' % v).replace('e', 'D'), ('%.2e' % v).replace('e', 'd'), '%d' % int(v), '%+d' % int(v), '%d.' % int(v), '%g' % v,
             '%de-3' % int(v), '%dE+2' % int(v), 'NaN', 'Inf', '-Inf', '1.#QNAN', 'NaNQ', '-1.#IND', '%+.3f' % v, ('%.3f' % (v % 1))[1:] if 0 < v % 1 < .9994 else '.25']
    t = forms[sel % len(forms)]
    low = t.lower()
    if low in ('inf', '-inf'):
        return t, float(low)
    if 'nan' in low or '#' in low:
        return t, float('nan')
    try:
        return t, int(t)
    except ValueError:
        return t, float(low.replace('d', 'e'))


CELL = st.tuples(st.sampled_from(['word', 'num', 'num']), st.floats(-1000, 1000), st.integers(0, 18), st.integers(0, len(WORDS) - 1))
ROW = st.fixed_dictionaries(dict(cells=st.lists(CELL, max_size=6), seps=st.lists(st.integers(0, 8), min_size=8, max_size=8), lead=st.booleans(),
                                 anchor=st.sampled_from([None, None, None, 0, 1, 2]), apos=st.integers(0, 6)))


def render(row, delims):
    """(text, [(word text, value)])"""
    words = []
    for kind, x, sel, w in row['cells']:
        if kind == 'word':
            t = ''.join(c for c in WORDS[w] if c not in delims)
            words.append((t, t))
        else:
            t, v = literal(x, sel)
            if any(c in delims for c in t):
                t, v = '7', 7
            words.append((t, v))
    if row['anchor'] is not None:
        a = ANCHORS[row['anchor']]
        words.insert(min(row['apos'], len(words)), (a, a))
    def sep(k):
        d = delims
        n = row['seps'][k % 8]
        return d[n % len(d)] * (1 + (n // 4 if d[n % len(d)] in ' \t' else 0))
    text = sep(7) if row['lead'] and delims[0] in ' \t' else ''
    for k, (t, _) in enumerate(words):
        text += (sep(k) if k else '') + t
    return text, words


def spans(text, delims):
    """Start and end of each word."""
    out, start = [], None
    for i, c in enumerate(text + '\n'):
        if c == '\n' or c in delims:
            if start is not None:
                out.append((start, i))
                start = None
        elif start is None:
            start = i
    return out


def same(text, value):
    if isinstance(value, bool) or isinstance(value, str):
        return text == str(value)
    if isinstance(value, int):
        try:
            return int(text) == value
        except ValueError:
            return False
    if value != value:
        return text.lower() == 'nan'
    try:
        got = float(text)
    except ValueError:
        return False
    return got == value and math.copysign(1, got) == math.copysign(1, value)


def equal(got, value):
    """Parsed value against the one in the file."""
    if isinstance(value, bool):
        value = str(value)
    if isinstance(value, str):
        return isinstance(got, str) and got == value
    if value != value:
        return isinstance(got, float) and got != got
    return not isinstance(got, str) and got == value


class Anchors(object):
    """Reference for mark_anchor on a list of rows."""

    def __init__(self):
        self.row, self.text = 0, None

    def mark(self, rows, text, occ):
        """None if the pattern is absent, 'skip' where the behaviour is a finding."""
        if occ > 0:
            hits = []
            for i in range(self.row, len(rows)):
                r = rows[i]
                if i == self.row and self.text is not None:
                    k = r.rfind(self.text)
                    if k >= 0:
                        r = r[k + len(self.text):]
                if text in r:
                    hits.append(i)
            if len(hits) < occ:
                return None
            return hits[occ - 1]
        hits = [i for i in range(len(rows)) if text in rows[i]]
        if self.text == text and rows and text in rows[-1]:
            return 'skip'
        if len(hits) < -occ:
            return None
        return hits[occ]


OP = st.one_of(
    st.fixed_dictionaries(dict(op=st.just('mark'), a=st.integers(0, 2), occ=st.sampled_from([1, 1, 1, 2, 3, -1, -1, -2, 0, 1.5]))),
    st.fixed_dictionaries(dict(op=st.just('mark'), a=st.integers(0, 2), occ=st.sampled_from([1, 1, 2, -1, -2]))),
    st.fixed_dictionaries(dict(op=st.just('reset'))),
    st.fixed_dictionaries(dict(op=st.just('var'), v=VALUE, row=st.integers(0, 30), f=st.integers(0, 30), off=st.sampled_from([0] * 6 + [1, 2]))),
    st.fixed_dictionaries(dict(op=st.just('var'), v=VALUE, row=st.integers(0, 30), f=st.integers(0, 30), off=st.sampled_from([0] * 12 + [1, 2]))),
    st.fixed_dictionaries(dict(op=st.just('array'), vs=st.lists(VALUE, min_size=1, max_size=12), row=st.integers(0, 30), span=st.integers(0, 2), f=st.integers(0, 10), g=st.integers(0, 10),
                               np=st.booleans(), fit=st.sampled_from(['exact', 'exact', 'more', 'less']), sep=st.integers(0, 3))),
    st.fixed_dictionaries(dict(op=st.just('table'), vs=st.lists(FLOATV, min_size=1, max_size=12), row=st.integers(0, 30), span=st.integers(0, 3), f=st.integers(0, 10), w=st.integers(0, 4), ints=st.booleans(),
                               fit=st.sampled_from(['exact', 'exact', 'exact', 'wide']))),
    st.fixed_dictionaries(dict(op=st.just('clear'), row=st.integers(0, 30))),
    st.fixed_dictionaries(dict(op=st.just('delims'), d=st.integers(0, len(DELIMS) - 1))),
    st.fixed_dictionaries(dict(op=st.just('generate'))))


@st.composite
def template(draw):
    return dict(rows=draw(st.lists(ROW, min_size=1, max_size=7)), d=draw(st.integers(0, len(DELIMS) - 1)), ops=draw(st.lists(OP, min_size=1, max_size=9)),
                eof=draw(st.booleans()), strict=False)


def run_template(spec, log):
    from openmdao.util.file_wrap import FileParser, InputFileGenerator
    delims = DELIMS[spec['d']]
    rows, held = [], []          # held[i]: {start of word: value} is kept as marks inside the text
    for r in spec['rows']:
        rows.append(render(r, delims)[0])
    with Scratch() as d:
        src, dst = os.path.join(d, 'template.txt'), os.path.join(d, 'out.txt')
        with open(src, 'w') as f:
            f.write('\n'.join(rows) + ('\n' if spec['eof'] else ''))
        gen = InputFileGenerator()
        gen.set_template_file(src)
        gen.set_generated_file(dst)
        gen.set_delimiters(delims)
        # the model: each row is a list of pieces, strings or values
        model = [[r] for r in rows]
        if not rows[-1] and not spec['eof']:
            model.pop()
        if not model:
            return
        anc = Anchors()
        written = 0

        def view(i):
            """Text of a row with every written value as one opaque word, and the pieces of its words."""
            return ''.join(p if isinstance(p, str) else '\x01' for p in model[i])

        def put(i, values, first, last):
            """Replace words first..last (1-based) of a row; returns how many."""
            text = view(i)
            todo = [(s, e) for k, (s, e) in enumerate(spans(text, delims), 1) if first <= k <= last]
            flat = []
            for p in model[i]:
                flat.extend(p if isinstance(p, str) else [p])
            new, pos, n = [], 0, 0
            for s, e in todo:
                if n >= len(values):
                    break
                new.extend(flat[pos:s])
                new.append([values[n]])
                pos, n = e, n + 1
            new.extend(flat[pos:])
            # join characters again
            out = []
            for x in new:
                if isinstance(x, str) and out and isinstance(out[-1], str):
                    out[-1] += x
                else:
                    out.append(x)
            model[i] = out
            return n, len(todo)

        def plain(i):
            return ''.join(p if isinstance(p, str) else '\x01' for p in model[i])

        def compare(what):
            gen.generate()
            with open(dst) as f:
                got = f.read().split('\n')
            end = got.pop() if got[-1] == '' and len(got) == len(model) + 1 else None
            if end is None and spec['eof']:
                check(False, '%s: the file has %d lines, expected %d: %r', what, len(got), len(model), got)
            check(len(got) == len(model), '%s: the file has %d lines, expected %d: %r', what, len(got), len(model), got)
            for i, (line, want) in enumerate(zip(got, model)):
                pos = 0
                for k, p in enumerate(want):
                    if isinstance(p, str):
                        check(line[pos:pos + len(p)] == p, '%s: line %d is %r, expected %r', what, i, line, want)
                        pos += len(p)
                    else:
                        nxt = want[k + 1] if k + 1 < len(want) else None
                        e = line.find(nxt[0], pos + 1) if nxt is not None else len(line)
                        check(e > pos and same(line[pos:e], p[0]), '%s: line %d is %r: %r is not %r', what, i, line, line[pos:e], p[0])
                        pos = e
                check(pos == len(line), '%s: line %d is %r, expected %r', what, i, line, want)

        for op in spec['ops']:
            k = op['op']
            n = len(model)
            if k == 'mark':
                text = ANCHORS[op['a']]
                occ = op['occ']
                if occ == 0 or occ == 1.5:
                    want = ValueError
                else:
                    want = anc.mark([plain(i) for i in range(n)], text, occ)
                    if want == 'skip':
                        if not spec['strict']:
                            continue
                        want = [i for i in range(n) if text in plain(i)][occ]
                    if want is None:
                        want = RuntimeError
                try:
                    gen.mark_anchor(text, occ)
                except (ValueError, RuntimeError) as err:
                    check(want is type(err), 'mark_anchor(%r, %r) raised %r, expected line %s', text, occ, err, want)
                    log.label('anchor: ' + type(err).__name__)
                else:
                    check(want == gen.current_row, 'mark_anchor(%r, %r) found line %s, expected %s in %r', text, occ, gen.current_row, want, [plain(i) for i in range(n)])
                    anc.row, anc.text = want, text
                    log.label('anchor found %s' % ('backwards' if occ < 0 else 'forwards'))
                continue
            if k == 'reset':
                gen.reset_anchor()
                anc.row, anc.text = 0, None
                continue
            if k == 'delims':
                delims = DELIMS[op['d']]
                # (a number whose text contains a delimiter would not be one word)
                gen.set_delimiters(delims)
                continue
            if k == 'generate':
                compare('generate')
                continue
            i = op['row'] % n
            rel = i - anc.row
            if k == 'clear':
                gen.clearline(rel)
                model[i] = ['']
                if i == n - 1:
                    spec = dict(spec, eof=True)
                log.label('clearline')
            elif k == 'var':
                v = dec(op['v'])
                if isinstance(v, str):
                    v = ''.join(c for c in v if c not in delims)
                nw = len(spans(plain(i), delims))
                if op['off']:
                    # out of range in one way or another
                    if op['off'] == 1:
                        call = (v, -anc.row - 1 - op['row'] % 3, 1) if op['f'] % 2 else (v, n - anc.row + op['row'] % 3, 1)
                    else:
                        call = (v, rel, nw + 1 + op['f'] % 3)
                    try:
                        gen.transfer_var(*call)
                    except (IndexError, ValueError):
                        log.label('address outside of the template')
                    else:
                        check(False, 'transfer_var%r has no place in %r but raised no error', call, [plain(j) for j in range(n)])
                    continue
                if not nw:
                    continue
                f = 1 + op['f'] % nw
                gen.transfer_var(v, rel, f)
                put(i, [v], f, f)
                written += 1
                log.label('value: ' + list(op['v'])[0])
            elif k == 'array':
                vals = [dec(v) for v in op['vs']]
                vals = [''.join(c for c in v if c not in delims) if isinstance(v, str) else v for v in vals]
                if op['np']:
                    vals = [float(v) for v in vals if not isinstance(v, str)] or [1.5]
                last = min(i + op['span'], n - 1)
                nws = [len(spans(plain(j), delims)) for j in range(i, last + 1)]
                if not nws[0] or not nws[-1]:
                    continue
                f = 1 + op['f'] % nws[0]
                g = 1 + op['g'] % nws[-1]
                if last == i:
                    f, g = min(f, g), max(f, g)
                total = (g - f + 1) if last == i else nws[0] - f + 1 + sum(nws[1:-1]) + g
                want = {'exact': total, 'more': total + 1 + op['g'] % 3, 'less': max(1, total - 1)}[op['fit']]
                vals = (vals * want)[:want]
                sep = delims[op['sep'] % len(delims)]
                arg = np.array(vals) if op['np'] else vals
                if want > total and (g != nws[-1] or plain(last)[-1:] in delims):
                    continue
                call = lambda: gen.transfer_array(arg, rel, f, g, **({} if last == i else {'row_end': last - anc.row}), sep=sep)
                if want < total:
                    try:
                        call()
                    except ValueError:
                        log.label('array too small')
                        log.nontrivial()
                    else:
                        check(False, '%d values for %d fields raised no error', want, total)
                    return
                call()
                pos = 0
                for j in range(i, last + 1):
                    m, _ = put(j, vals[pos:], f if j == i else 1, g if j == last else 10 ** 6)
                    pos += m
                for v in vals[pos:]:
                    model[last] = model[last] + [sep, [v]]
                    log.label('array extended')
                if pos < len(vals) and last == n - 1:
                    spec = dict(spec, eof=True)
                written += len(vals)
                log.label('array over %d lines' % (last - i + 1))
            elif k == 'table':
                last = min(i + op['span'], n - 1)
                nw = min(len(spans(plain(j), delims)) for j in range(i, last + 1))
                if not nw:
                    continue
                f = 1 + op['f'] % nw
                g = min(nw, f + op['w'])
                wide = op['fit'] == 'wide'
                cols = g - f + 1 + (1 if wide else 0)
                if wide:
                    g += 1
                size = cols * (last - i + 1)
                vals = [dec(v) for v in op['vs']]
                arr = np.array((vals * size)[:size]).reshape(last - i + 1, cols)
                if op['ints']:
                    arr = np.arange(size).reshape(arr.shape) - 3
                exact = all(len(spans(plain(j), delims)) >= g for j in range(i, last + 1))
                try:
                    gen.transfer_2Darray(arr, rel, last - anc.row, f, g)
                except (ValueError, IndexError):
                    check(not exact, 'transfer_2Darray of shape %s failed for fields %d to %d', arr.shape, f, g)
                    log.label('table too wide')
                    log.nontrivial()
                    return
                check(exact, 'a table of %d columns was written to fewer fields without an error', cols)
                for j in range(i, last + 1):
                    put(j, [x.item() for x in arr[j - i]], f, g)
                written += size
                log.label('table')
        compare('end')
        # read everything back
        if written:
            par = FileParser()
            par.set_file(dst)
            par.set_delimiters(delims)
            count = 0
            for i in range(len(model)):
                if any(isinstance(p, str) and any(c in ' \t' and c not in delims for c in p) for p in model[i]):
                    continue
                k = 0
                text = plain(i)
                words = spans(text, delims)
                held = [p[0] for p in model[i] if not isinstance(p, str)]
                # words glued to a value by a former delimiter are no single values
                if any('\x01' in text[s:e] and e - s > 1 for s, e in words) or any(isinstance(v, bool) is False and not isinstance(v, str) and any(c in delims for c in repr(v)) for v in held):
                    continue
                if any(not text[s:e].startswith('\x01') and not plainword(text[s:e]) for s, e in words):
                    continue
                for f, (s, e) in enumerate(words, 1):
                    if text[s] == '\x01':
                        v = held[k]
                        k += 1
                        got = par.transfer_var(i, f)
                        check(equal(got, v), 'wrote %r at line %d, field %d, but read %r from %r', v, i, f, got, par.data[i])
                        count += 1
            if count:
                log.label('read back')
                log.nontrivial()
        log.nontrivial(written > 1)


def plainword(t):
    if t[0].isalpha():
        return t[:3].lower() not in ('nan', 'inf') or t.isalnum() or t in WORDS
    low = t.lower().replace('d', 'e')
    try:
        float(low)
        return True
    except ValueError:
        return t in ('1.#QNAN', '-1.#IND')


# ------------------------------------------------------------------ parser alone

READ = st.one_of(
    st.fixed_dictionaries(dict(op=st.just('mark'), a=st.integers(0, 2), occ=st.sampled_from([1, 1, 1, 2, -1, -2, 0, 2.5]))),
    st.fixed_dictionaries(dict(op=st.just('reset'))),
    st.fixed_dictionaries(dict(op=st.sampled_from(['var', 'var', 'line']), row=st.integers(0, 30), f=st.integers(0, 30), off=st.sampled_from([0] * 9 + [1]))),
    st.fixed_dictionaries(dict(op=st.just('key'), a=st.integers(0, 3), f=st.integers(0, 30), occ=st.sampled_from([1, 1, 2, -1, -1, -2, -3, 0]), off=st.integers(-2, 2))),
    st.fixed_dictionaries(dict(op=st.sampled_from(['array', 'array', 'table']), row=st.integers(0, 30), span=st.integers(0, 3), f=st.integers(0, 10), g=st.integers(0, 10), end=st.booleans())),
    st.fixed_dictionaries(dict(op=st.sampled_from(['other', 'again']))))


@st.composite
def parse(draw):
    return dict(rows=draw(st.lists(ROW, min_size=1, max_size=8)), d=draw(st.integers(0, len(DELIMS) - 1)), ops=draw(st.lists(READ, min_size=1, max_size=10)),
                grid=draw(st.sampled_from([None, None, 2, 3, 5])), ragged=draw(st.sampled_from([None] * 4 + [0, 1, 2])), keyfirst=draw(st.booleans()), eol=draw(st.sampled_from([None, None, '$'])), full=draw(st.sampled_from([None, '#'])),
                comments=draw(st.lists(st.tuples(st.integers(0, 8), st.booleans(), st.integers(0, 2)), max_size=3)), strict=False)


def run_parse(spec, log):
    from openmdao.util.file_wrap import FileParser
    delims = DELIMS[spec['d']]
    eol, full = spec['eol'], spec['full']
    if full and not eol and not spec['strict']:
        eol = '$'           # finding C22-comment
    table = []
    for r in spec['rows']:
        r = dict(r)
        if spec['ragged'] is not None:
            r['anchor'] = None
            spec = dict(spec, grid=spec['grid'] or 3)
        if spec['grid']:
            cells = [(('num',) + tuple(c[1:])) for c in (r['cells'] or [('num', 1.5, 0, 0)])]
            r['cells'] = (cells * 6)[:spec['grid'] + (2 if spec['ragged'] == len(table) else 0)]
            if r['anchor'] is not None and spec['keyfirst']:
                r['apos'] = 0
        elif spec['keyfirst']:
            r['apos'] = 0
        table.append(render(r, delims))
    lines = []
    content = []
    for i, (t, w) in enumerate(table):
        for at, whole, a in spec['comments']:
            if at == i and whole and full:
                lines.append('%s %s commented out' % (full, ANCHORS[a]))
        if any(at == i and not whole for at, whole, a in spec['comments']) and eol:
            a = [a for at, whole, a in spec['comments'] if at == i and not whole][0]
            t2 = t + delims[0] * 2 + eol + ' ' + ANCHORS[a]
            log.label('end-of-line comment')
        else:
            t2 = t
        lines.append(t2)
        content.append(t)
    n = len(content)
    with Scratch() as d:
        path = os.path.join(d, 'out.txt')
        with open(path, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        par = FileParser(end_of_line_comment_char=eol, full_line_comment_char=full)
        par.set_file(path)
        par.set_delimiters(delims)
        check(len(par.data) == n, 'the file has %d lines without comments, the parser sees %d', n, len(par.data))
        anc = Anchors()
        reads = 0
        others = []
        for op in spec['ops']:
            k = op['op']
            if k == 'mark':
                text, occ = ANCHORS[op['a']], op['occ']
                if occ in (0, 2.5):
                    want = ValueError
                else:
                    want = anc.mark(content, text, occ)
                    if want == 'skip':
                        if not spec['strict']:
                            continue
                        want = [i for i in range(n) if text in content[i]][occ]
                    want = RuntimeError if want is None else want
                try:
                    par.mark_anchor(text, occ)
                except (ValueError, RuntimeError) as err:
                    check(want is type(err), 'mark_anchor(%r, %r) raised %r, expected line %s of %r', text, occ, err, want, content)
                else:
                    check(want == par.current_row, 'mark_anchor(%r, %r) found line %s, expected %s in %r', text, occ, par.current_row, want, content)
                    anc.row, anc.text = want, text
                    log.label('anchor %s' % ('backwards' if occ < 0 else 'forwards'))
                continue
            if k == 'reset':
                par.reset_anchor()
                anc.row, anc.text = 0, None
                continue
            if k == 'other':
                o = FileParser()
                o.set_delimiters(DELIMS[(spec['d'] + 1 + len(others)) % len(DELIMS)])
                others.append(o)
                log.label('another parser')
                continue
            if k == 'again':
                par.set_delimiters(delims)
                continue
            if k == 'key':
                if not spec['keyfirst']:
                    continue
                key = (ANCHORS + ['no_such_key'])[op['a']]
                if op['occ'] == 0:
                    want = ValueError
                else:
                    hits = [i for i in range(anc.row, n) if key in content[i]]
                    if len(hits) < abs(op['occ']):
                        want = RuntimeError
                    else:
                        j = hits[op['occ'] - 1 if op['occ'] > 0 else op['occ']] + op['off']
                        if j < 0 or j >= n:
                            want = IndexError
                        else:
                            words = table[j][1]
                            if not words:
                                continue
                            f = op['f'] % len(words)
                            want = words[f][1]
                            if op['off'] == 0 and f == 0:
                                continue         # the key itself
                            if key == want:
                                continue
                try:
                    got = par.transfer_keyvar(key, op['f'] if isinstance(want, type) else f, op['occ'], op['off'])
                except (ValueError, RuntimeError, IndexError) as err:
                    check(isinstance(want, type) and isinstance(err, want), 'transfer_keyvar(%r, %s, %s, %s) raised %r, expected %r', key, op['f'], op['occ'], op['off'], err, want)
                    log.label('key: ' + type(err).__name__)
                else:
                    check(not isinstance(want, type) and equal(got, want), 'transfer_keyvar(%r, %s, %s, %s) at line %d gave %r, expected %r in %r', key, op['f'], op['occ'], op['off'], anc.row, got, want, content)
                    log.label('key')
                    reads += 1
                continue
            i = op['row'] % n
            rel = i - anc.row
            words = table[i][1]
            if k in ('var', 'line'):
                if op['off']:
                    r = -anc.row - 1 - op['f'] % 3 if op['f'] % 2 else n - anc.row
                    try:
                        got = par.transfer_line(r) if k == 'line' else par.transfer_var(r, 1)
                    except IndexError:
                        log.label('row outside of the file')
                    else:
                        check(False, 'row %d from line %d gave %r', r, anc.row, got)
                    continue
                if k == 'line':
                    got = par.transfer_line(rel)
                    check(got.rstrip(delims + ' ') == content[i].rstrip(delims + ' '), 'line %d is %r, expected %r', i, got, content[i])
                    continue
                if not words:
                    continue
                f = op['f'] % len(words)
                got = par.transfer_var(rel, f + 1)
                check(equal(got, words[f][1]), 'field %d of %r is %r, expected %r', f + 1, content[i], got, words[f][1])
                check(isinstance(words[f][1], str) or type(got) is type(words[f][1]), 'field %d of %r is a %s', f + 1, content[i], type(got).__name__)
                reads += 1
            else:
                last = min(i + op['span'], n - 1)
                ws = [[v for _, v in table[j][1]] for j in range(i, last + 1)]
                if any(not w for w in ws):
                    continue
                f = op['f'] % len(ws[0])
                g = op['g'] % len(ws[-1])
                if k == 'array':
                    if last == i:
                        f, g = min(f, g), max(f, g)
                        want = ws[0][f:g + 1]
                    else:
                        want = ws[0][f:] + sum(ws[1:-1], []) + ws[-1][:g + 1]
                    if len(set(isinstance(v, str) for v in want)) > 1:
                        continue
                    got = par.transfer_array(rel, f + 1, last - anc.row if last > i or op['end'] else None, g + 1)
                    check(got.shape == (len(want),) and all(equal(a.item(), b) for a, b in zip(got, want)), 'array from line %d field %d to line %d field %d is %r, expected %r', i, f + 1, last, g + 1, got, want)
                    log.label('array over %d lines' % (last - i + 1))
                    reads += 1
                else:
                    if any(isinstance(v, str) for w in ws for v in w):
                        continue
                    wid = set(len(w) for w in ws)
                    g = g if op['end'] else None
                    if g is not None:
                        if f > g:
                            f, g = g, f
                    want = [w[f:] if g is None else w[f:g + 1] for w in ws]
                    if len(wid) > 1 and len(set(len(w) for w in want)) > 1:
                        if 0 in [len(w) for w in want] or 1 in [len(w) for w in want]:
                            continue        # NumPy broadcasts
                        try:
                            got = par.transfer_2Darray(rel, f + 1, last - anc.row, g + 1 if g is not None else None)
                        except ValueError:
                            log.label('ragged table refused')
                        else:
                            check(False, 'a table with rows %r was read as %r', want, got)
                        continue
                    if not want[0]:
                        continue
                    got = par.transfer_2Darray(rel, f + 1, last - anc.row, g + 1 if g is not None else None)
                    check(got.shape == (len(want), len(want[0])) and all(equal(a.item(), b) for x, y in zip(got, want) for a, b in zip(x, y)), 'table from line %d field %d to line %d field %s is %r, expected %r',
                          i, f + 1, last, g, got, want)
                    log.label('table of %d lines' % (last - i + 1))
                    reads += 1
        log.nontrivial(reads)


# ------------------------------------------------------------------ fixed columns

@st.composite
def columns(draw):
    return dict(widths=draw(st.lists(st.integers(9, 12), min_size=1, max_size=5)), rows=draw(st.integers(1, 5)), seed=draw(st.integers(0, 10 ** 6)),
                kind=draw(st.lists(st.sampled_from(['f', 'i', 'e', 's', 'w']), min_size=5, max_size=5)), left=draw(st.booleans()), tight=draw(st.booleans()),
                before=draw(st.integers(-1, len(DELIMS) - 1)), box=draw(st.tuples(st.integers(0, 4), st.integers(0, 4), st.integers(0, 4), st.integers(0, 4))))


def run_columns(spec, log):
    from openmdao.util.file_wrap import FileParser
    r = np.random.RandomState(spec['seed'])
    W = spec['widths']
    cells = []
    for i in range(spec['rows']):
        row = []
        for j, w in enumerate(W):
            k = spec['kind'][j]
            v = round(float(r.uniform(-500, 500)), 2)
            if k == 'i':
                t, v = '%d' % int(v), int(v)
            elif k == 'e':
                if spec['tight']:
                    v = -abs(v)
                t = '%.*e' % (w - 8, v)
                v = float(t)
            elif k == 'f':
                t = repr(v)
            elif k == 's':
                t = v = WORDS[r.randint(len(WORDS))]
            else:
                t = v = 'two w%d' % r.randint(9)
            t = t.ljust(w) if spec['left'] else t.rjust(w)
            row.append((t, v))
        cells.append(row)
    start = np.concatenate([[0], np.cumsum(W)])
    with Scratch() as d:
        path = os.path.join(d, 'o.txt')
        with open(path, 'w') as f:
            f.write('HEAD\n' + ''.join(''.join(t for t, _ in row) + '\n' for row in cells))
        par = FileParser()
        par.set_file(path)
        if spec['before'] >= 0:
            o = FileParser()
            o.set_delimiters(DELIMS[spec['before']])
        par.set_delimiters('columns')
        par.mark_anchor('HEAD')
        for i, row in enumerate(cells):
            for j, (t, v) in enumerate(row):
                got = par.transfer_var(1 + i, int(start[j]) + 1, int(start[j + 1]))
                if spec['kind'][j] == 'w':
                    check(isinstance(got, str) and got.strip() == v, 'columns %d to %d are %r, expected %r', start[j] + 1, start[j + 1], got, v)
                else:
                    check(equal(got, v), 'columns %d to %d of %r are %r, expected %r', start[j] + 1, start[j + 1], ''.join(t for t, _ in row), got, v)
            got = par.transfer_var(1 + i, int(start[-2]) + 1)
            check(got == row[-1][1] if spec['kind'][len(W) - 1] != 'w' else got.strip() == row[-1][1], 'columns from %d are %r, expected %r', start[-2] + 1, got, row[-1][1])
        a, b = sorted(x % len(W) for x in spec['box'][:2])
        i, j = sorted(x % spec['rows'] for x in spec['box'][2:])
        if all(spec['kind'][c] in 'fie' for c in range(a, b + 1)):
            want = np.array([[cells[y][x][1] for x in range(a, b + 1)] for y in range(i, j + 1)], dtype=float)
            got = par.transfer_2Darray(1 + i, int(start[a]) + 1, 1 + j, int(start[b + 1]))
            check(got.shape == want.shape and np.all(got == want), 'box is %r, expected %r', got, want)
            got = par.transfer_array(1 + i, int(start[a]) + 1, 1 + j, int(start[b + 1]))
            check(got.shape == (want.size,) and np.all(got == want.ravel()), 'array of the box is %r, expected %r', got, want.ravel())
            if b == len(W) - 1:
                got = par.transfer_2Darray(1 + i, int(start[a]) + 1, 1 + j)
                check(got.shape == want.shape and np.all(got == want), 'box to the end of the line is %r, expected %r', got, want)
            log.label('box')
    log.label('tight' if spec['tight'] and 'e' in spec['kind'][:len(W)] else 'spaced')
    log.nontrivial(len(W) > 1)


FACETS = [
    Facet('template', template, run_template, quick=2500, thorough=40000, rule='two or more values written, or one read back, or a misfit refused'),
    Facet('parse', parse, run_parse, quick=2500, thorough=40000, rule='at least one value read'),
    Facet('columns', columns, run_columns, quick=400, thorough=8000, rule='two or more columns'),
]
