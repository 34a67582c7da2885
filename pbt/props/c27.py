"""C27: file references and file utilities."""
import fnmatch
import os
import warnings

from hypothesis import strategies as st

from pbt.core import Facet, Scratch, check

ASSUMPTIONS = ['POSIX file names', 'two outputs never name the same file', 'a directory filter also applies to the starting directories as given; cases where these fail it are not offered',
               'text files are in the encoding of the process (UTF-8)']

NAMES = ['a', 'b', 'data.txt', 'data.TXT', 'x y z', 'é', '.hidden', '[z]', 'a.b.c', 'q*']
DIRS = ['d', 'e', 'd.x', 'D', 'x y', '.h', 'run1', 'run2']
PIECE = st.one_of(st.text(st.sampled_from('abc \n\r\t\0é€\x85\u2028\ufeff\U0001f600'), max_size=12), st.sampled_from(['', '\n', '\r\n', 'a\r\nb\n', '\r', 'no end', '\ufeffbom', '\x00\x01', '\x1a', 'tab\t', 'x' * 70000, '\u2028', '\x85']))


def snapshot(top):
    """Every directory and file below top, with contents."""
    out = {}
    for path, dirs, files in os.walk(top):
        out[os.path.relpath(path, top)] = None
        for d in dirs:
            if os.path.islink(os.path.join(path, d)):
                out[os.path.relpath(os.path.join(path, d), top)] = 'link'
        for f in files:
            full = os.path.join(path, f)
            if os.path.islink(full):
                out[os.path.relpath(full, top)] = 'link'
            else:
                with open(full, 'rb') as h:
                    out[os.path.relpath(full, top)] = h.read()
    return out


def same_tree(got, want, what):
    check(sorted(got) == sorted(want), '%sthere is %s, and there is no %s', what, sorted(set(got) - set(want)), sorted(set(want) - set(got)))
    for k in want:
        check(got[k] == want[k], '%s%s holds %r..., not %r...', what, k, (got[k] or b'')[:60], (want[k] or b'')[:60])


# ---------------------------------------------------------------- file references

@st.composite
def place(draw):
    return dict(name=draw(st.sampled_from(NAMES)), sub=draw(st.sampled_from(['', '', '', 's', 's/t', '.', '..', 's/..'])), absolute=draw(st.integers(0, 3)) == 0)


@st.composite
def refs(draw):
    comps = []
    for k in range(draw(st.integers(1, 5))):
        ins = []
        for _ in range(draw(st.integers(0, 3)) if k else 0):
            ins.append(dict(src=draw(st.integers(0, 20)), at=draw(place()), alias=draw(st.sampled_from([None, None, None, None, 'same', 'dots', 'link', 'shared']))))
        outs = [dict(at=draw(place()), binary=draw(st.booleans()), text=draw(PIECE), raw=draw(st.binary(max_size=20)).hex(), late=draw(st.integers(0, 5)) == 0) for _ in range(draw(st.integers(1, 2)))]
        comps.append(dict(ins=ins, outs=outs, groups=draw(st.lists(st.sampled_from(['', 'd', 'e', 'd/e', 'x y']), max_size=2)), dir=draw(st.sampled_from(['', '', 'c', 'd', 'c/d', '../up', 'ABS']))))
    return dict(comps=comps, root=draw(st.sampled_from(['', '', 'r', 'ABS'])), history=draw(st.lists(st.sampled_from(['run', 'run', 'new', 'setup', 'once', 'fd', 'cd']), min_size=1, max_size=4)), promote=draw(st.booleans()),
                petsc=draw(st.sampled_from([False, False, True])), bad=draw(st.sampled_from([None] * 8 + ['binary', 'value', 'nodir', 'clash', 'unconnected'])), function=draw(st.booleans()))


class Model(object):
    """The files of every component, and what they hold after a run."""

    def __init__(self, spec, top):
        self.spec, self.top = spec, top
        self.root = os.path.join(top, 'root.abs') if spec['root'] == 'ABS' else os.path.join(top, spec['root'])
        self.links = []
        used = set()
        self.comps = []
        self.outs = []         # (comp, number)
        groups = {}
        for k, c in enumerate(spec['comps']):
            path, where = [], self.root
            for j, g in enumerate(c['groups']):
                # the first component of a group decides on its directory
                name = 'g%d_%d' % (j, len(g))
                path.append(name)
                d = groups.setdefault('.'.join(path), g)
                where = os.path.join(where, d)
            mine = os.path.join(top, 'abs%d' % k) if c['dir'] == 'ABS' else c['dir']
            m = dict(path=path, where=os.path.join(where, mine) if mine else where, dir=mine, ins=[], outs=[])
            for o in c['outs']:
                m['outs'].append(dict(file=self.claim(m, o['at'], used), binary=o['binary'], text=o['text'], raw=bytes.fromhex(o['raw']), late=o['late']))
            for i in c['ins']:
                s = self.outs[i['src'] % len(self.outs)]
                src = self.comps[s[0]]['outs'][s[1]]
                full = os.path.join(self.comps[s[0]]['where'], src['file'])
                shared = [x for x in m['ins'] if x['src'] == s]
                if i['alias'] == 'same':
                    f = os.path.normpath(full)
                elif i['alias'] == 'dots':
                    f = os.path.join(os.path.dirname(full), '.', '..', os.path.basename(os.path.normpath(os.path.dirname(full))), os.path.basename(full))
                    f = os.path.join(os.path.realpath(os.path.dirname(full)), '..', os.path.basename(os.path.realpath(os.path.dirname(full))), os.path.basename(full))
                elif i['alias'] == 'link':
                    link = os.path.join(top, 'link%d' % len(self.links))
                    self.links.append((link, os.path.normpath(os.path.dirname(full))))
                    f = os.path.join(link, os.path.basename(full))
                elif i['alias'] == 'shared' and shared:
                    f = shared[0]['file']
                else:
                    f = self.claim(m, i['at'], used)
                m['ins'].append(dict(file=f, src=s, binary=src['binary']))
            self.comps.append(m)
            self.outs += [(k, n) for n in range(len(m['outs']))]
        self.groups = groups
        self.salt = 0

    def claim(self, m, at, used):
        name = at['name']
        base = os.path.join(self.top, 'files') if at['absolute'] else m['where']
        while True:
            rel = os.path.join(at['sub'], name)
            key = os.path.normpath(os.path.join(base, rel))
            if key not in used and not any(u.startswith(key + '/') or key.startswith(u + '/') for u in used):
                used.add(key)
                return os.path.join(base, rel) if at['absolute'] else rel
            name += '_'

    def full(self, k, kind, n):
        m = self.comps[k]
        return os.path.normpath(os.path.join(m['where'], m[kind][n]['file']))

    def contents(self):
        """{(comp, output): bytes} after a run"""
        out = {}
        for k, m in enumerate(self.comps):
            read = b''.join(out[i['src']] for i in m['ins'])
            for n, o in enumerate(m['outs']):
                out[k, n] = produce(o, read if not m['ins'] else read[:100000], k, n, self.salt)
        return out


def produce(o, read, k, n, salt):
    head = ('%d.%d.%d|' % (k, n, salt)).encode()
    if o['binary']:
        return head + o['raw'] + b'\xff\r\n\x00' + read
    text = o['text'].encode('utf-8')
    if any(b > 127 for b in read[-4:]):
        read = read[:0]
    try:
        read.decode('utf-8')
    except UnicodeDecodeError:
        read = repr(read[:200]).encode()
    return head + text + read


def build(model, spec, log):
    from openmdao.api import Component, FileRef, Group, IndepVarComp, Problem

    class Files(Component):
        def __init__(self, k):
            super(Files, self).__init__()
            self.k = k
            m = model.comps[k]
            self.add_param('x', 0.0)
            self.add_output('y', 0.0)
            for n, i in enumerate(m['ins']):
                kw = {'binary': True} if i['binary'] else {}
                if spec['bad'] == 'binary' and k == bad_comp and n == 0:
                    kw = {} if i['binary'] else {'binary': True}
                if spec['bad'] == 'value' and k == bad_comp and n == 0:
                    self.add_param('i%d_%d' % (k, n), 3.0)
                    continue
                self.add_param('i%d_%d' % (k, n), FileRef(i['file']), **kw)
            for n, o in enumerate(m['outs']):
                self.add_output('o%d_%d' % (k, n), FileRef(o['file']), **({'binary': True} if o['binary'] else {}))
            self.ran = 0

        def solve_nonlinear(self, params, unknowns, resids):
            self.ran += 1
            k = self.k
            m = model.comps[k]
            read = b''
            now = model.contents()
            check(os.path.realpath(os.getcwd()) == os.path.realpath(m['where']) or not self.directory and not any(model.groups['.'.join(m['path'][:j + 1])] for j in range(len(m['path']))) and not spec['root'],
                  'component %d runs in %s, not in %s', k, os.getcwd(), m['where'])
            for n, i in enumerate(m['ins']):
                ref = params['i%d_%d' % (k, n)]
                want = now[i['src']]
                with ref.open('rb') as f:
                    got = f.read()
                check(got == want, 'component %d reads %r... (%d bytes) from input %d, not %r... (%d)', k, got[:60], len(got), n, want[:60], len(want))
                with ref.open('r') as f:
                    text = f.read()
                check(isinstance(text, bytes if i['binary'] else str), 'component %d gets %s from input %d', k, type(text), n)
                read += got
            for n, o in enumerate(m['outs']):
                ref = unknowns['o%d_%d' % (k, n)]
                data = now[k, n]
                if o['binary']:
                    with ref.open('w') as f:
                        f.write(data)
                else:
                    with ref.open('wb') as f:
                        f.write(data)
            unknowns['y'] = params['x'] * 2.0 + k

    bad_comp = min([k for k, m in enumerate(model.comps) if m['ins']] or [-1])
    prob = Problem(root=Group())
    if spec['petsc']:
        from openmdao.core.petsc_impl import PetscImpl
        prob = Problem(root=Group(), impl=PetscImpl)
    if spec['root']:
        prob.root.directory, prob.root.create_dirs = model.root, True
        if spec['root'] != 'ABS':
            prob.root.directory = spec['root']
    made, where = {'': prob.root}, {}
    chain = []
    for k, m in enumerate(model.comps):
        for j in range(len(m['path'])):
            p = '.'.join(m['path'][:j + 1])
            if p not in made:
                g = made['.'.join(m['path'][:j])].add(m['path'][j], Group())
                d = model.groups[p]
                g.directory = (lambda rank, d=d: d) if spec['function'] else d
                g.create_dirs = True
                made[p] = g
        c = Files(k)
        c.directory, c.create_dirs = m['dir'], True
        made['.'.join(m['path'])].add('c%d' % k, c)
        where[k] = '.'.join(m['path'] + ['c%d' % k])
        chain.append(c)
    prob.root.add('p', IndepVarComp('x', 1.0))
    order = ['p'] + []
    for k, m in enumerate(model.comps):
        prob.root.connect('p.x' if k == 0 else where[k - 1] + '.y', where[k] + '.x')
        for n, i in enumerate(m['ins']):
            if spec['bad'] == 'unconnected' and k == bad_comp and n == 0:
                continue
            prob.root.connect('%s.o%d_%d' % (where[i['src'][0]], i['src'][0], i['src'][1]), '%s.i%d_%d' % (where[k], k, n))
    return prob, chain, where, bad_comp


def interleaved(spec):
    """True if a group would have to run twice in one pass"""
    seen, last = set(), None
    for c in spec['comps']:
        g = tuple('g%d_%d' % (j, len(x)) for j, x in enumerate(c['groups']))
        for j in range(1, len(g) + 1):
            if g[:j] in seen and (last is None or last[:j] != g[:j]):
                return True
            seen.add(g[:j])
        last = g
    return False


def run_refs(spec, log):
    if interleaved(spec):
        spec = dict(spec, comps=[dict(c, groups=spec['comps'][0]['groups']) for c in spec['comps']])
    start = os.getcwd()
    try:
        with Scratch() as top:
            top = os.path.realpath(top)
            outer = top
            os.makedirs(os.path.join(top, 'start'))
            os.makedirs(os.path.join(top, 'elsewhere'))
            top = os.path.join(top, 'start')
            os.chdir(top)
            model = Model(spec, top)
            for link, target in model.links:
                os.makedirs(target, exist_ok=True)
                os.symlink(target, link)
            for k, m in enumerate(model.comps):
                # what has to exist for names with dots
                for kind in ('ins', 'outs'):
                    for e in m[kind]:
                        d = os.path.dirname(os.path.join(m['where'], e['file']))
                        if '..' in d:
                            parts = d.split('/')
                            for n in range(2, len(parts) + 1):
                                if n < len(parts) and parts[n] == '..' or spec['bad'] == 'nodir':
                                    os.makedirs(os.path.normpath('/'.join(parts[:n])) if '..' not in parts[:n] else '/'.join(parts[:n]), exist_ok=True)
            with open('bystander', 'w') as f:
                f.write('mine')
            prob, chain, where, bad = build(model, spec, log)
            if spec['bad'] and spec['bad'] != 'nodir' and bad >= 0:
                return refused(spec, prob, model, bad, log)
            prob.setup(check=False)
            check(os.getcwd() == top, 'setup left the working directory at %s', os.getcwd())
            prepared = snapshot(outer)
            moved = False
            for h, op in enumerate(spec['history']):
                what = 'step %d (%s): ' % (h, op)
                if op == 'new':
                    model.salt += 1
                    continue
                if op == 'cd':
                    # directories were settled at setup
                    os.chdir(os.path.join(os.path.dirname(top), 'elsewhere') if spec['root'] or all(any(model.groups['.'.join(m['path'][:j + 1])] for j in range(len(m['path']))) or m['dir'] for m in model.comps) else top)
                    moved = os.getcwd() != top
                    continue
                if op == 'setup':
                    if moved:
                        os.chdir(top)
                        moved = False
                    prob.setup(check=False)
                    continue
                here = os.getcwd()
                ran = [c.ran for c in chain]
                if op == 'once':
                    prob.run_once()
                else:
                    prob.run()
                if op == 'fd':
                    J = prob.calc_gradient(['p.x'], [where[len(chain) - 1] + '.y'], mode='fd')
                    check(abs(J[0][0] - 2.0 ** len(chain)) < 1e-4, '%sderivative %r', what, J)
                check(os.getcwd() == here, '%sthe working directory is %s', what, os.getcwd())
                check(all(c.ran > r for c, r in zip(chain, ran)), '%scomponents ran %s times before, %s now', what, ran, [c.ran for c in chain])
                want = dict(prepared)
                now = model.contents()
                for k, m in enumerate(model.comps):
                    for n in range(len(m['outs'])):
                        want[os.path.relpath(real(model.full(k, 'outs', n)), outer)] = now[k, n]
                    for n, i in enumerate(m['ins']):
                        want[os.path.relpath(real(model.full(k, 'ins', n)), outer)] = now[i['src']]
                same_tree(snapshot(outer), want, what)
                for k, m in enumerate(model.comps):
                    for n, i in enumerate(m['ins']):
                        with open(os.path.join(m['where'], i['file']), 'rb') as f:
                            check(f.read() == now[i['src']], '%sinput %d of component %d has other contents than its source', what, n, k)
                check(os.listdir(os.path.join(os.path.dirname(top), 'elsewhere')) == [], '%sfiles appeared in the working directory', what)
                log.label(op)
            log.nontrivial(any(m['ins'] for m in model.comps))
    finally:
        os.chdir(start)


def real(path):
    return os.path.join(os.path.realpath(os.path.dirname(path)), os.path.basename(path))


def refused(spec, prob, model, bad, log):
    kind = spec['bad']
    m = model.comps[bad]
    others = [x for x in m['ins'][1:]]
    if kind == 'clash':
        return
    if kind == 'unconnected':
        # the input file belongs to somebody else: nothing to refuse unless it is one of those written
        mine = os.path.join(m['where'], m['ins'][0]['file'])
        if not any(x['file'] == m['ins'][0]['file'] for x in others):
            return
    try:
        prob.setup(check=False)
    except Exception as err:
        text = str(err)
        check(type(err).__name__ in ('RuntimeError', 'TypeError', 'ValueError'), 'refused with %r', err)
        if kind == 'value':
            check('not the same' in text or 'Type' in text or 'type' in text or 'FileRef' in text, 'refused with %r', err)
        else:
            check('FileRef' in text, 'refused with %r', err)
    else:
        check(False, '%s was accepted', kind)
    log.label('refused: ' + kind)


# ---------------------------------------------------------------- missing directories and clashes

@st.composite
def guards(draw):
    return dict(dirs=draw(st.lists(st.sampled_from(['', 'd', 'e']), min_size=2, max_size=2)), create=draw(st.booleans()), sub=draw(st.sampled_from(['', 's', 's/t'])), exists=draw(st.booleans()),
                second=draw(st.sampled_from(['same', 'other'])), sources=draw(st.sampled_from(['one', 'two'])), connected=draw(st.booleans()), binary=draw(st.tuples(st.sampled_from([None, False, True]), st.sampled_from([None, False, True]))))


def run_guards(spec, log):
    from openmdao.api import Component, FileRef, Group, Problem

    class Maker(Component):
        def __init__(self, name, binary=None):
            super(Maker, self).__init__()
            self.add_output('f', FileRef(name), **({} if binary is None else {'binary': binary}))

        def solve_nonlinear(self, params, unknowns, resids):
            with unknowns['f'].open('w') as f:
                f.write(b'made' if spec['binary'][0] else 'made')

    class Taker(Component):
        def __init__(self, name, binary=None):
            super(Taker, self).__init__()
            self.add_param('f', FileRef(name), **({} if binary is None else {'binary': binary}))
            self.add_output('n', 0.0)

        def solve_nonlinear(self, params, unknowns, resids):
            with params['f'].open('r') as f:
                unknowns['n'] = len(f.read())
    start = os.getcwd()
    try:
        with Scratch() as top:
            os.chdir(top)
            prob = Problem(root=Group())
            a = prob.root.add('a', Maker('made1', spec['binary'][0]))
            b = prob.root.add('b', Maker('made2', spec['binary'][0]))
            name = os.path.join(spec['sub'], 'in.txt')
            c = prob.root.add('c', Taker(name, spec['binary'][1]))
            # the first input in the same file as the second, or not
            d = prob.root.add('d', Taker(os.path.abspath(os.path.join(spec['dirs'][0], name)) if spec['second'] == 'same' else 'other.txt', spec['binary'][1]))
            c.directory, c.create_dirs = spec['dirs'][0], spec['create']
            where = os.path.join(top, spec['dirs'][0], spec['sub'])
            if spec['exists']:
                os.makedirs(where, exist_ok=True)
            there = os.path.isdir(where)
            d.create_dirs = False
            prob.root.connect('a.f', 'c.f')
            if spec['connected']:
                prob.root.connect('a.f' if spec['sources'] == 'one' else 'b.f', 'd.f')
            why = None
            if not there and not spec['create']:
                why = 'create_dirs'
            elif bool(spec['binary'][0]) != bool(spec['binary'][1]):
                why = 'binary'
            elif spec['second'] == 'same' and spec['connected'] and spec['sources'] == 'two':
                why = 'multiple'
            elif spec['second'] == 'same' and not spec['connected']:
                why = 'unconnected'
            before = snapshot(top)
            try:
                prob.setup(check=False)
            except (RuntimeError, ValueError) as err:
                check(why is not None, 'setup was refused: %s', err)
                check(why in str(err), 'refused with %r, not for %s', err, why)
                if why == 'create_dirs':
                    same_tree(snapshot(top), before, '')
                log.label('refused: ' + why)
                log.nontrivial(True)
                return
            check(why is None, 'setup accepted what it had to refuse: %s', why)
            if not spec['connected'] and not spec['second'] == 'same':
                with open('other.txt', 'w') as f:
                    f.write('other one')
            prob.run()
            check(prob['c.n'] == 4, 'c read %r characters', prob['c.n'])
            check(prob['d.n'] == (4 if spec['connected'] else 9), 'd read %r characters', prob['d.n'])
            want = dict(before)
            for p in ('made1', 'made2'):
                want[p] = b'made'
            want[os.path.relpath(os.path.join(where, 'in.txt'), top)] = b'made'
            if spec['second'] != 'same':
                want['other.txt'] = b'made' if spec['connected'] else b'other one'
            parts = os.path.relpath(where, top).split('/')
            for k in range(len(parts)):
                want['/'.join(parts[:k + 1])] = None
            same_tree(snapshot(top), want, '')
            log.label('accepted')
            log.nontrivial(spec['dirs'][0] != '')
    finally:
        os.chdir(start)


# ---------------------------------------------------------------- build_directory

def nested():
    leaf = st.text(st.sampled_from('ab \n\té€\u2028\U0001f600\0'), max_size=10)
    key = st.one_of(st.sampled_from(NAMES), st.sampled_from(DIRS), st.sampled_from(['d/f', 'x y/g/h', './a', 'd/./b']))
    return st.recursive(st.dictionaries(key, leaf, max_size=3), lambda c: st.dictionaries(key, st.one_of(leaf, c, c), min_size=1, max_size=4), max_leaves=12)


@st.composite
def builds(draw):
    return dict(tree=draw(nested()), old=draw(nested()), force=draw(st.booleans()), topdir=draw(st.sampled_from([None, 'abs', 'rel', 'slash'])), absolute=draw(st.sampled_from([None, None, None, 'top', 'deep'])), again=draw(st.booleans()))


def put(want, tree, force, base, skipped):
    """Model of build_directory on a dictionary {path: contents or None}; returns False when a name is used as both."""
    for key, val in tree.items():
        path = os.path.normpath(os.path.join(base, key))
        parts = path.split('/')
        for k in range(1, len(parts)):
            p = '/'.join(parts[:k])
            if want.get(p) is not None:
                return False
            want[p] = None
        if isinstance(val, dict):
            if want.get(path) is not None:
                return False
            want[path] = None
            if not put(want, val, force, path, skipped):
                return False
        elif path in want and not force:
            skipped.append(path)
        else:
            if path in want and want[path] is None:
                return False
            want[path] = val.encode('utf-8')
    return True


def run_builds(spec, log):
    from openmdao.util.file_util import build_directory
    start = os.getcwd()
    try:
        with Scratch() as top:
            top = os.path.realpath(top)
            os.makedirs(os.path.join(top, 'w', 'here'))
            os.makedirs(os.path.join(top, 'w', 't'))
            os.chdir(os.path.join(top, 'w', 'here'))
            want = {'.': None}
            base = '.' if spec['topdir'] is None else '../t'
            kw = {} if spec['topdir'] is None else {'topdir': {'abs': os.path.join(top, 'w', 't'), 'rel': '../t', 'slash': os.path.join(top, 'w', 't') + '/'}[spec['topdir']]}
            where = os.path.join(top, 'w', 'here' if spec['topdir'] is None else 't')
            if not put(want, spec['old'], False, '.', []):
                return
            for k in sorted(want):
                full = os.path.join(where, k)
                if want[k] is None:
                    os.makedirs(full, exist_ok=True)
                else:
                    os.makedirs(os.path.dirname(full), exist_ok=True)
                    with open(full, 'wb') as f:
                        f.write(want[k])
            tree, skipped = spec['tree'], []
            if spec['absolute']:
                bad = {os.path.join(top, 'escaped'): 'x'} if len(tree) % 2 else {os.path.join(top, 'escaped'): {'f': 'x'}}
                tree = dict(tree)
                tree.update(bad if spec['absolute'] == 'top' else {'zz': bad})
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    try:
                        build_directory(tree, force=spec['force'], **kw)
                    except RuntimeError as err:
                        check('relative' in str(err) and 'escaped' in str(err), 'refused with %r', err)
                    except OSError:
                        pass
                    else:
                        check(False, 'an absolute name was accepted')
                check(not os.path.exists(os.path.join(top, 'escaped')), 'the absolute name was created')
                check(os.getcwd() == os.path.join(top, 'w', 'here'), 'working directory is %s', os.getcwd())
                log.label('absolute')
                return
            if not put(want, tree, spec['force'], '.', skipped):
                return
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter('always')
                build_directory(tree, force=spec['force'], **kw)
            check(os.getcwd() == os.path.join(top, 'w', 'here'), 'working directory is %s', os.getcwd())
            same_tree(snapshot(where), want, '')
            told = [str(w.message) for w in caught if 'will not be overwritten' in str(w.message)]
            check(len(told) == len(skipped), 'warnings %s, kept %s', told, skipped)
            if spec['again'] and spec['force']:
                build_directory(tree, force=True, **kw)
                same_tree(snapshot(where), want, 'again: ')
            other = os.path.join(top, 'w', 't' if spec['topdir'] is None else 'here')
            check(os.listdir(other) == [], 'something was created elsewhere: %s', os.listdir(other))
            if skipped:
                log.label('kept')
            log.nontrivial(any(isinstance(v, dict) and v for v in tree.values()))
    finally:
        os.chdir(start)


# ---------------------------------------------------------------- searches

def filters(names):
    pats = ['*', '*.txt', 'd*', '*.*', '[ab]', '?', '*x*', '.h*', 'D', 'data*', 'a.b.c', 'no'] + names
    return st.one_of(st.none(), st.none(), st.none(), st.tuples(st.just('pattern'), st.sampled_from(pats)), st.tuples(st.sampled_from(['longer', 'starts', 'in']), st.sampled_from(['a', 'd', '.', 'x'])))


@st.composite
def searches(draw):
    tree = draw(st.lists(st.tuples(st.lists(st.sampled_from(DIRS), max_size=3), st.sampled_from(NAMES + [None])), min_size=3, max_size=14))
    return dict(tree=[[list(d), f] for d, f in tree], match=draw(filters(NAMES)), exclude=draw(filters(NAMES)), dirmatch=draw(filters(DIRS)), direxclude=draw(filters(DIRS)), starts=draw(st.lists(st.sampled_from([0, 0, 0, 1, 2, 3, 5, 8]), min_size=draw(st.sampled_from([1, 1, 1, 1, 0])), max_size=3)),
                single=draw(st.booleans()), how=draw(st.sampled_from(['abs', 'rel', 'dot', 'slash', 'up'])), cwd=draw(st.integers(0, 30)), up=draw(st.sampled_from(NAMES + DIRS)), uppath=draw(st.sampled_from([None, 'abs', 'rel', 'dot', 'slash', 'up', 'missing', ''])), tup=draw(st.booleans()))


def predicate(f):
    if f is None:
        return None
    kind, x = f
    if kind == 'pattern':
        return x
    return {'longer': lambda n: len(os.path.basename(n.rstrip('/'))) > 1, 'starts': lambda n: os.path.basename(n.rstrip('/')).startswith(x), 'in': lambda n: x in os.path.basename(n.rstrip('/'))}[kind]


def passes(f, name):
    if f is None:
        return True
    if f[0] == 'pattern':
        return fnmatch.fnmatchcase(name, f[1])
    return predicate(f)(name)


def walk(root, rel, files, dirs, spec, prefix, out):
    for f in files.get(rel, []):
        if passes(spec['match'], f) and (spec['exclude'] is None or not passes(spec['exclude'], f)):
            out.append(os.path.join(prefix, f))
    for d in dirs.get(rel, []):
        if passes(spec['dirmatch'], d) and (spec['direxclude'] is None or not passes(spec['direxclude'], d)):
            walk(root, os.path.join(rel, d) if rel else d, files, dirs, spec, os.path.join(prefix, d), out)


def run_searches(spec, log):
    from openmdao.util.file_util import DirContext, find_files, find_up
    start = os.getcwd()
    try:
        with Scratch() as top:
            top = os.path.realpath(top)
            base = os.path.join(top, 'base')
            os.mkdir(base)
            paths = ['']
            for d, f in spec['tree']:
                for k in range(len(d) + 1):
                    p = '/'.join(d[:k])
                    if p not in paths and os.path.exists(os.path.join(base, p)):
                        break
                    if p not in paths:
                        os.mkdir(os.path.join(base, p))
                        paths.append(p)
                else:
                    if f is not None and not os.path.exists(os.path.join(base, '/'.join(d), f)):
                        with open(os.path.join(base, '/'.join(d), f), 'w') as h:
                            h.write('x')
            files, dirs = {}, {}
            for p in paths:
                for e in os.listdir(os.path.join(base, p)):
                    (dirs if os.path.isdir(os.path.join(base, p, e)) else files).setdefault(p, []).append(e)
            cwd = os.path.join(base, paths[spec['cwd'] % len(paths)])
            os.chdir(cwd)
            cwd = os.getcwd()

            def name(p, how):
                full = os.path.normpath(os.path.join(base, p))
                return {'abs': full, 'rel': os.path.relpath(full), 'dot': os.path.join('.', os.path.relpath(full)), 'slash': full + '/', 'up': os.path.join(full, '..', os.path.basename(full))}[how]
            chosen = [paths[k % len(paths)] for k in spec['starts']]
            if spec['single'] and chosen:
                chosen = chosen[:1]
            given = [name(p, spec['how']) for p in chosen]
            for g in given:
                if not passes(spec['dirmatch'], g):
                    spec = dict(spec, dirmatch=None)
                if spec['direxclude'] is not None and passes(spec['direxclude'], g):
                    spec = dict(spec, direxclude=None)
            if 1:
                want = []
                for p, g in zip(chosen, given):
                    walk(base, p, files, dirs, spec, g, want)
                arg = given[0] if spec['single'] and given else tuple(given) if spec['tup'] else given
                kw = dict((k, predicate(spec[k])) for k in ('match', 'exclude', 'dirmatch', 'direxclude') if spec[k] is not None)
                before = snapshot(top)
                got = list(find_files(arg, **kw))
                check(sorted(got) == sorted(want), 'found %s, not %s', sorted(got), sorted(want))
                same_tree(snapshot(top), before, '')
                log.label('%d found' % min(3, len(want)))
                log.nontrivial(len(want) > 0 and len(kw) > 0)
            # upwards
            p = paths[(spec['cwd'] + 1) % len(paths)]
            u = spec['uppath']
            if u == 'missing':
                check(find_up(spec['up'], os.path.join(base, 'not there')) is None, 'found something above a directory that does not exist')
            else:
                got = find_up(spec['up']) if u is None else find_up(spec['up'], '' if u == '' else name(p, u))
                cur = cwd if u in (None, '') else os.path.normpath(os.path.join(base, p))
                want = None
                while True:
                    if os.path.exists(os.path.join(cur, spec['up'])):
                        want = os.path.join(cur, spec['up'])
                        break
                    if cur == '/':
                        break
                    cur = os.path.dirname(cur)
                check(got == want, 'looking for %s from %s (%s) in %s found %s, not %s', spec['up'], p, u, cwd, got, want)
                if want:
                    log.label('found above')
            # directory contexts
            ctx = DirContext(base)
            with ctx as inner:
                check(os.getcwd() == base and inner == base, 'context is in %s', os.getcwd())
                try:
                    with DirContext(os.path.join(base, p)):
                        with ctx:
                            check(os.getcwd() == base, 'context is in %s', os.getcwd())
                        check(os.getcwd() == os.path.normpath(os.path.join(base, p)), 'context is in %s', os.getcwd())
                        raise KeyError('leave')
                except KeyError:
                    pass
                check(os.getcwd() == base, 'context is in %s', os.getcwd())
            check(os.getcwd() == cwd, 'context left the working directory at %s', os.getcwd())
    finally:
        os.chdir(start)


FACETS = [
    Facet('refs', refs, run_refs, 250, rule='models that pass files; non-trivial: at least one connected file'),
    Facet('guards', guards, run_guards, 120, rule='set-ups that are to be refused or not; non-trivial: refused, or with a directory'),
    Facet('build', builds, run_builds, 160, rule='trees to build over others; non-trivial: a nested directory'),
    Facet('search', searches, run_searches, 400, rule='searches in random trees; non-trivial: something found with a filter'),
]
