"""C28: listings, searches and exported model data agree with the assembled model."""
import fnmatch
import io
import json
import os
import re
from collections import OrderedDict

from hypothesis import strategies as st

from pbt.core import Facet, Scratch, check

ASSUMPTIONS = ['serial execution (no MPI), scalar variables', 'blanks, the width of columns and the leading part that lines of a section share are presentation',
               'a pattern given to list_connections is matched with every name that a variable has, seen from the system or from a system inside']

GROUP_NAMES = ['g', 'g1', 'g10', 'ga', 'G']
COMP_NAMES = ['c', 'c1', 'c10', 'ca', 'g', 'g1c', 'x']
IN_NAMES = ['x', 'x1', 'xx', 'y', 'z', 'p', 'p1', 'a_b']
OUT_NAMES = ['y', 'y1', 'z', 'x', 'x1', 'u', 'uu', 'p', 'pp']
UNITS = {'m': 1.0, 'km': 1000.0, 'cm': 0.01}


@st.composite
def trees(draw):
    comps = []
    for _ in range(draw(st.integers(1, 7))):
        kind = draw(st.sampled_from(['ivc', 'comp', 'comp', 'comp', 'comp', 'implicit']))
        ins = [] if kind == 'ivc' else draw(st.lists(st.sampled_from(IN_NAMES), max_size=4, unique=True))
        outs = [o for o in draw(st.lists(st.sampled_from(OUT_NAMES), min_size=1, max_size=3, unique=True)) if o not in ins]
        if kind == 'ivc':
            outs = [o for o in outs if o[0] != 'p'] or ['v']
        comps.append(dict(kind=kind, ins=[(n, draw(st.sampled_from([None, None, 'm', 'km', 'cm']))) for n in ins], outs=[(n, draw(st.sampled_from([None, None, 'm', 'km', 'cm']))) for n in outs],
                          state=kind == 'implicit' and draw(st.integers(1, 2)) or 0, name=draw(st.integers(0, 99)), place=draw(st.lists(st.integers(0, 2), max_size=3)), promo=draw(promotion())))
    return dict(comps=comps, gpromo=draw(st.lists(promotion(), min_size=6, max_size=6)), parallel=draw(st.integers(0, 63)), conns=draw(st.lists(st.one_of(st.none(), st.integers(0, 999), st.integers(0, 999)), min_size=8, max_size=8)),
                level=draw(st.integers(0, 9)), order=draw(st.lists(st.integers(0, 99), max_size=3)), cycles=draw(st.booleans()), pick=draw(st.integers(0, 999)), patterns=draw(st.lists(st.integers(0, 999), min_size=2, max_size=5)),
                view=draw(st.sampled_from([None, None, None, 'problem', 'sqlite', 'hdf5'])), run=draw(st.booleans()))


@st.composite
def promotion(draw):
    return draw(st.lists(st.tuples(st.sampled_from(['*', '*', 'exact', 'exact', 'prefix', 'suffix', 'question', 'set']), st.integers(0, 99)), max_size=3))


class Ambiguous(Exception):
    pass


class Tree(object):
    """Reference model of the assembled system tree."""

    def __init__(self, spec):
        self.spec = spec
        self.kids = {'': []}                 # path -> children, in order
        self.kind = {'': 'group'}
        self.comp = OrderedDict()            # path -> component spec
        gidx = {}
        for c in spec['comps']:
            path = ''
            for d in c['place']:
                path = self.child(path, GROUP_NAMES, d, 'group', gidx)
            path = self.child(path, COMP_NAMES, c['name'], c['kind'], None)
            self.comp[path] = c
        self.order(spec['order'])
        self.gpromo = dict((p, spec['gpromo'][i % 6]) for p, i in gidx.items())
        self.parallel = set(p for p, i in gidx.items() if spec['parallel'] >> i % 6 & 1)
        self.ins, self.outs, self.states = OrderedDict(), OrderedDict(), set()
        self.prom = {}                       # (path, absolute name) -> name
        self.patterns = {}                   # path -> promotes argument
        self.collect('')
        self.connect()

    def child(self, path, names, k, kind, gidx):
        if kind == 'group':
            name = names[k % len(names)]
            full = path + '.' + name if path else name
            if full in self.kind and self.kind[full] == 'group':
                return full
        for j in range(len(names) + 20):
            name = names[(k + j) % len(names)] + ('_%d' % j if j >= len(names) else '')
            full = path + '.' + name if path else name
            if full not in self.kind:
                break
        self.kind[full] = kind
        self.kids[path].append(full)
        if kind == 'group':
            self.kids[full] = []
            gidx[full] = len(gidx)
        return full

    def order(self, keys):
        self.ordered = {}
        if keys:
            for path, kids in self.kids.items():
                if len(kids) > 1 and (len(path) + keys[0]) % 2:
                    k = keys[0] % len(kids)
                    kids[:] = kids[k:] + kids[:k]
                    if len(keys) > 1 and keys[1] % 2:
                        kids.reverse()
                    self.ordered[path] = [p.rpartition('.')[2] for p in kids]

    def collect(self, path):
        """Names of the variables below path, as seen from it."""
        names = []                           # (absolute, name), inputs then unknowns in order
        if path in self.comp:
            c = self.comp[path]
            for n, u in c['ins']:
                self.ins[path + '.' + n] = None if n[0] == 'p' else u
                names.append((path + '.' + n, n))
            for k, (n, u) in enumerate(c['outs']):
                self.outs[path + '.' + n] = None if n[0] == 'p' else u
                names.append((path + '.' + n, n))
            for k in range(c['state']):
                self.outs[path + '.s%d' % k] = None
                self.states.add(path + '.s%d' % k)
                names.append((path + '.s%d' % k, 's%d' % k))
        else:
            seen = set()
            for kid in self.kids[path]:
                sub = self.collect(kid)
                args = self.promotes(kid, sub)
                here = self.promoted(kid, sub, args)
                mine = [n for a, n in here if a in self.outs]
                if len(set(mine)) < len(mine) or seen & set(mine):
                    args = []
                    here = self.promoted(kid, sub, args)
                    mine = [n for a, n in here if a in self.outs]
                    if seen & set(mine):
                        raise Ambiguous()
                seen.update(mine)
                self.patterns[kid] = args
                names.extend(here)
        for a, n in names:
            self.prom[path, a] = n
        return names

    def promotes(self, path, names):
        args = []
        if not names:
            return args
        for how, k in (self.comp[path]['promo'] if path in self.comp else self.gpromo[path]):
            n = names[k % len(names)][1]
            pat = {'*': '*', 'exact': n, 'prefix': n[:1] + '*', 'suffix': '*' + n[-1:], 'question': n[:-1] + '?', 'set': '[' + n[0] + 'z]' + n[1:]}[how]
            args.append(pat)
        return args

    def promoted(self, path, names, args):
        local = path.rpartition('.')[2]
        return [(a, n if any(fnmatch.fnmatchcase(n, p) for p in args) else local + '.' + n) for a, n in names]

    def scope(self, path, names):
        return [a for a in names if not path or a.startswith(path + '.')]

    def connect(self):
        """Which source each input has, and the connect() calls that are needed."""
        byname = dict((self.prom['', a], a) for a in self.outs)
        classes = OrderedDict()
        for a in self.ins:
            classes.setdefault(self.prom['', a], []).append(a)
        self.src, self.calls, self.implicit = OrderedDict(), [], 0
        rank = dict((p, i) for i, p in enumerate(self.components('')))
        if any(len(set(a.rpartition('.')[2][0] == 'p' for a in c)) > 1 for c in classes.values()):
            raise Ambiguous()
        for k, (name, members) in enumerate(classes.items()):
            owners = [a.rpartition('.')[0] for a in members]
            if name in byname:
                for a in members:
                    self.src[a] = byname[name]
                    self.implicit += 1
                continue
            pick = self.spec['conns'][k % len(self.spec['conns'])]
            cand = [o for o in self.outs if (o.rpartition('.')[2][0] == 'p') == (members[0].rpartition('.')[2][0] == 'p') and o.rpartition('.')[0] not in owners
                    and (self.spec['cycles'] or all(rank[o.rpartition('.')[0]] < rank[p] for p in owners))]
            if pick is None or not cand:
                for a in members:          # inputs that share a name and have no source agree
                    self.ins[a] = self.ins[members[0]]
                continue
            src = cand[(pick + k) % len(cand)]
            common = os.path.commonprefix([x.split('.')[:-1] for x in members + [src]])
            cut = len(common) - self.spec['level'] % (len(common) + 1)
            group = '.'.join(common[:cut])
            if group in self.comp:
                group = group.rpartition('.')[0]
            self.calls.append((group, self.prom[group, src], self.prom[group, members[0]]))
            for a in members:
                self.src[a] = src

    def systems(self, path, recurse=True):
        out = []
        for kid in self.kids.get(path, []):
            out.append(kid)
            if recurse:
                out.extend(self.systems(kid))
        return out

    def components(self, path):
        return [p for p in self.systems(path) if p in self.comp]


def build(tree):
    from openmdao.api import Component, Group, IndepVarComp, ParallelGroup, Problem, ScipyGMRES

    class Comp(Component):
        def solve_nonlinear(self, params, unknowns, resids):
            pass

        def apply_nonlinear(self, params, unknowns, resids):
            pass

        def linearize(self, params, unknowns, resids):
            return {}

    class Implicit(Comp):
        pass

    def meta(unit, name):
        kw = {}
        if unit:
            kw['units'] = unit
        if name[0] == 'p':
            kw['pass_by_obj'] = True
        return kw

    def make(path):
        if path in tree.comp:
            c = tree.comp[path]
            if c['kind'] == 'ivc':
                return IndepVarComp([(n, float(i), meta(tree.outs[path + '.' + n], n)) for i, (n, u) in enumerate(c['outs'])])
            comp = Implicit() if c['kind'] == 'implicit' else Comp()
            for n, u in c['ins']:
                comp.add_param(n, 1.0, **meta(tree.ins[path + '.' + n], n))
            for n, u in c['outs']:
                comp.add_output(n, 2.0, **meta(tree.outs[path + '.' + n], n))
            for k in range(c['state']):
                comp.add_state('s%d' % k, 3.0)
            return comp
        group = ParallelGroup() if path in tree.parallel else Group()
        group.ln_solver = ScipyGMRES()
        kids = tree.kids[path]
        if path in tree.ordered:
            kids = sorted(kids)
        for kid in kids:
            if tree.patterns[kid]:
                group.add(kid.rpartition('.')[2], make(kid), promotes=list(tree.patterns[kid]))
            else:
                group.add(kid.rpartition('.')[2], make(kid))
        if path in tree.ordered:
            group.set_order(tree.ordered[path])
        for g, src, tgt in tree.calls:
            if g == path:
                group.connect(src, tgt)
        return group
    prob = Problem(root=make(''))
    prob.setup(check=False)
    return prob


def model(spec, log, nontrivial=True):
    try:
        tree = Tree(spec)
    except Ambiguous:
        log.label('ambiguous names (skipped)')
        return None, None
    prob = build(tree)
    # groups whose order is not set are sorted by setup (see C05)
    for path, kids in tree.kids.items():
        if path not in tree.ordered:
            names = find(prob, path).list_order()
            here = dict((p.rpartition('.')[2], p) for p in kids)
            check(sorted(names) == sorted(here), 'list_order of %r: %r, it contains %r', path, names, sorted(here))
            kids[:] = [here[n] for n in names]
    deep = max(p.count('.') for p in tree.comp)
    for ok, what in [(deep > 0, 'nested'), (any(tree.patterns.values()), 'promotions'), (tree.src, 'connections'), (tree.implicit, 'implicit connections'), (tree.states, 'states'), (tree.parallel, 'parallel groups'), (tree.ordered, 'order set'),
                     (len(tree.src) < len(tree.ins), 'unconnected inputs'), (any(g for g, _, _ in tree.calls), 'connections of inner groups')]:
        if ok:
            log.label(what)
    if nontrivial and deep and any(tree.patterns.values()) and tree.src:
        log.nontrivial()
    return tree, prob


def find(prob, path):
    return prob.root.find_subsystem(path) if path else prob.root


def pick_system(tree, k):
    paths = [''] + tree.systems('')
    return paths[k % len(paths)]


# -- systems and names ------------------------------------------------------

def run_iterate(spec, log):
    from openmdao.api import Component, Group, IndepVarComp, ParallelGroup
    tree, prob = model(spec, log)
    if prob is None:
        return
    root = prob.root
    check(root.pathname == '', 'the root is called %r', root.pathname)
    for path in [''] + tree.systems(''):
        s = find(prob, path)
        check(s.pathname == path and s.name == path.rpartition('.')[2], 'the system at %r says it is %r with path %r', path, s.name, s.pathname)
        direct, every = tree.systems(path, False), tree.systems(path)
        isgroup = path not in tree.comp
        if isgroup:
            check(s.list_order() == [p.rpartition('.')[2] for p in direct], 'list_order of %r: %r, it contains %r', path, s.list_order(), direct)
            # every system is found from every group that contains it
            for sub in every:
                rel = sub[len(path) + 1:] if path else sub
                found = s.find_subsystem(rel)
                check(found.pathname == sub, 'find_subsystem(%r) of %r returns %r', rel, path, found.pathname)
        else:
            check(list(s.subsystems()) == [] and list(s.subsystems(recurse=True)) == [], 'component %r has subsystems %r', path, list(s.subsystems()))
            check(list(s.subsystems(include_self=True)) == [s] and list(s.components(include_self=True)) == [s], 'component %r: include_self gives %r', path, list(s.components(include_self=True)))
            continue

        def parallel(p):
            return p in tree.parallel
        for local in (False, True):
            for recurse in (False, True):
                for include in (False, True):
                    for typ, ok in [(None, lambda p: True), (Group, lambda p: p not in tree.comp), (Component, lambda p: p in tree.comp), (IndepVarComp, lambda p: p in tree.comp and tree.comp[p]['kind'] == 'ivc'), (ParallelGroup, parallel)]:
                        kw = {} if typ is None else {'typ': typ}
                        listed = (lambda x: sorted(x)) if local else list    # local systems come in no promised order
                        got = listed(x.pathname for x in s.subsystems(local=local, recurse=recurse, include_self=include, **kw))
                        want = listed(p for p in ([path] if include else []) + (every if recurse else direct) if ok(p))
                        check(got == want, 'subsystems(local=%r, recurse=%r, include_self=%r, typ=%s) of %r: %r, expected %r', local, recurse, include, typ, path, got, want)
                        if typ is Group:
                            got = listed(x.pathname for x in s.subgroups(local=local, recurse=recurse, include_self=include))
                            check(got == want, 'subgroups(local=%r, recurse=%r, include_self=%r) of %r: %r, expected %r', local, recurse, include, path, got, want)
                        if typ is Component:
                            got = listed(x.pathname for x in s.components(local=local, recurse=recurse, include_self=include))
                            check(got == want, 'components(local=%r, recurse=%r, include_self=%r) of %r: %r, expected %r', local, recurse, include, path, got, want)


def run_names(spec, log):
    tree, prob = model(spec, log)
    if prob is None:
        return
    value = 10.0
    for a in tree.outs:
        value += 1.0
        p = tree.prom['', a]
        view, local = find(prob, a.rpartition('.')[0]).unknowns, a.rpartition('.')[2]
        if int(value) % 2:
            prob[p] = value
        else:
            view[local] = value
        check(view[local] == value and prob[p] == value, 'set %s to %r; by its path it is %r, by its promoted name %r it is %r', a, value, view[local], p, prob[p])
    values = dict((a, prob[tree.prom['', a]]) for a in tree.outs)
    for i, a in enumerate(tree.outs):
        check(values[a] == 11.0 + i, 'writing to another name changed %r: %r, expected %r', a, values[a], 11.0 + i)
    for path in [''] + tree.systems(''):
        s = find(prob, path)
        want = [(tree.prom[path, a], a) for a in tree.outs if (path, a) in tree.prom]
        got = list(s.unknowns.keys())
        check(sorted(got) == sorted(n for n, a in want), 'unknowns of %r: %r, expected %r', path, sorted(got), sorted(n for n, a in want))
        for n, a in want:
            check(s.unknowns[n] == values[a], '%r of %r is %r, the variable %s is %r', n, path, s.unknowns[n], a, values[a])
            m = s.unknowns.metadata(n)
            check(m['pathname'] == a and m['top_promoted_name'] == tree.prom['', a], '%r of %r: its metadata says pathname %r and promoted name %r, expected %r and %r', n, path, m['pathname'], m['top_promoted_name'], a, tree.prom['', a])
        if path in tree.comp:
            mine = [a for a in tree.ins if (path, a) in tree.prom]
            check(sorted(s.params.keys()) == sorted(tree.prom[path, a] for a in mine), 'params of %r: %r', path, list(s.params.keys()))
            for a in mine:
                m = s.params.metadata(tree.prom[path, a])
                check(m['pathname'] == a and m['top_promoted_name'] == tree.prom['', a], 'input %r: its metadata says pathname %r and promoted name %r, expected %r', a, m['pathname'], m['top_promoted_name'], tree.prom['', a])
    # an input without a source has one value under all its names
    for a in tree.ins:
        if a not in tree.src:
            value += 1.0
            members = [b for b in tree.ins if tree.prom['', b] == tree.prom['', a]]
            prob[tree.prom['', a]] = value
            check(prob[tree.prom['', a]] == value, 'set %r to %r, it is %r', tree.prom['', a], value, prob[tree.prom['', a]])
            for b in members:
                view, local = find(prob, b.rpartition('.')[0]).params, b.rpartition('.')[2]
                check(view[local] == value, 'set %r to %r, the input %r is %r', tree.prom['', a], value, b, view[local])
            if len(members) > 1:
                log.label('inputs that share a name')
    # names that are no names of variables
    for a in tree.ins:
        try:
            got = prob[a]
        except KeyError:
            continue
        if a in [tree.prom['', o] for o in tree.outs] or tree.prom['', a] != a and a in [tree.prom['', b] for b in tree.ins]:
            continue                       # it is also the promoted name of something else
        view, local = find(prob, a.rpartition('.')[0]).params, a.rpartition('.')[2]
        check(got == view[local], '%r is %r, the input has the value %r', a, got, view[local])
    for name in list(tree.outs) + ['', 'q', 'c.', '.c', 'root']:
        if name not in [n for (p, a), n in tree.prom.items() if not p]:
            try:
                got = prob[name]
            except KeyError:
                continue
            check(False, '%r is not the promoted name of a variable, but it has the value %r', name, got)


# -- listings ---------------------------------------------------------------

FIELD = re.compile(r'^(\S+)(?:\s+\(([^)]*)\))?(?:\s+\[([^]]*)\])?\s*$')


def read_side(text, relname):
    m = FIELD.match(text.strip())
    check(m is not None, 'cannot read %r', text)
    name = m.group(1)
    if name.startswith('.'):
        name = relname + name
    return name, m.group(2), m.group(3)


def read_connections(text):
    """Sections of (source, target) pairs."""
    sections, rel, src = OrderedDict(), '', None
    sections[''] = []
    lines = text.split('\n')
    for i, line in enumerate(lines):
        if line.startswith('Connections for '):
            rel = line[len('Connections for '):-1]
            check(rel not in sections, 'the component %r is listed twice', rel)
            sections[rel] = []
        elif ' -> ' in line:
            left, right = line.split(' -> ')
            if left.strip():
                src = read_side(left, rel)
            check(src is not None, 'the line %r has no source', line)
            sections[rel].append((src, read_side(right, rel)))
        else:
            check(not line.strip('-').strip(), 'unexpected line %r', line)
    return sections


def conn_entry(tree, tgt, src):
    """What is shown of one connection; src or tgt may be None."""
    if src is None:
        left = ('{unconnected}', None, None)
    else:
        p = tree.prom['', src]
        left = (src, None if p == src else p, tree.outs[src])
    if tgt is None:
        return left, ('{unconnected}', None, None)
    p = tree.prom['', tgt]
    shown = None if p == tgt else p
    if shown and src is not None and p == tree.prom['', src]:
        shown = '*'
    return left, (tgt, shown, tree.ins[tgt])


def conn_table(tree, path, unconnected):
    out = []
    for a, s in tree.src.items():
        if tree.scope(path, [a]) or tree.scope(path, [s]):
            out.append(conn_entry(tree, a, s))
    if unconnected:
        used = set(tree.src.values())
        out += [conn_entry(tree, a, None) for a in tree.scope(path, tree.ins) if a not in tree.src]
        out += [conn_entry(tree, None, o) for o in tree.scope(path, tree.outs) if o not in used]
    return out


def same_entries(got, want, what):
    key = lambda e: tuple(tuple(x or '' for x in side) for side in e)
    got, want = sorted(got, key=key), sorted(want, key=key)
    check(got == want, '%s: listed but not in the model: %r; in the model but not listed: %r (%d lines, %d expected)', what, [e for e in got if e not in want][:4], [e for e in want if e not in got][:4], len(got), len(want))


def run_connections(spec, log):
    tree, prob = model(spec, log)
    if prob is None:
        return
    want = dict(tree.src)
    got = dict((t, s[0]) for t, s in prob.root.connections.items())
    check(got == want, 'connections of the model: %r, expected %r', sorted(got.items()), sorted(want.items()))
    path = pick_system(tree, spec['pick'])
    s = find(prob, path)
    for unconnected in (True, False):
        stream = io.StringIO()
        s.list_connections(group_by_comp=False, unconnected=unconnected, stream=stream)
        sections = read_connections(stream.getvalue())
        check(list(sections) == [''], 'list_connections(group_by_comp=False) has sections %r', list(sections))
        same_entries(sections[''], conn_table(tree, path, unconnected), 'list_connections(group_by_comp=False, unconnected=%r) of %r' % (unconnected, path))
        stream = io.StringIO()
        s.list_connections(unconnected=unconnected, stream=stream)
        sections = read_connections(stream.getvalue())
        comps = [path] if path in tree.comp else tree.components(path)
        check(list(sections) == [''] + comps and not sections[''], 'list_connections of %r has sections %r, its components are %r', path, list(sections), comps)
        for c in comps:
            same_entries(sections[c], conn_table(tree, c, unconnected), 'list_connections(unconnected=%r) of %r, component %r' % (unconnected, path, c))
    # one variable
    inside = [(p, a) for p, a in tree.prom if not path or p == path or p.startswith(path + '.')]
    for k in spec['patterns']:
        names = [tree.prom[p, a] for p, a in inside] + sorted(tree.ins) + sorted(tree.outs)
        if not names:
            return
        n = names[k % len(names)]
        pattern = {0: n, 1: n, 2: n, 3: n[:-1] + '*', 4: '*' + n[-1:], 5: '*.' + n.rpartition('.')[2], 6: '?', 7: n + 'q'}[k % 8]
        if pattern in tree.ins or pattern in tree.outs:
            chosen = set([pattern])
        else:
            chosen = set(a for p, a in inside if fnmatch.fnmatchcase(tree.prom[p, a], pattern) or fnmatch.fnmatchcase(a[len(p) + 1 if p else 0:], pattern))
        want = [conn_entry(tree, t, src) for t, src in tree.src.items() if t in chosen or src in chosen]
        stream = io.StringIO()
        try:
            s.list_connections(var=pattern, stream=stream)
        except KeyError:
            check(not chosen, 'list_connections(var=%r) of %r fails, %r have that name', pattern, path, sorted(chosen))
            log.label('no such variable')
            continue
        check(chosen, 'list_connections(var=%r) of %r does not report that there is no such variable', pattern, path)
        log.label('one variable' if len(chosen) == 1 else 'several variables')
        sections = read_connections(stream.getvalue())
        same_entries(sections[''], want, 'list_connections(var=%r) of %r' % (pattern, path))


def run_listings(spec, log):
    tree, prob = model(spec, log)
    if prob is None:
        return
    path = pick_system(tree, spec['pick'])
    s = find(prob, path)
    # states
    states = [tree.prom[path, a] for a in tree.outs if a in tree.states and (path, a) in tree.prom]
    want = {}
    for i, n in enumerate(states):
        s.unknowns[n] = want[n] = 100.0 + i
    stream = io.StringIO()
    s.list_states(stream=stream)
    text = stream.getvalue()
    blocks = re.findall(r'^(\S+)\nValue: (\S+)\nResidual: (\S+)\n', text, re.M)
    check([b[0] for b in blocks] == states, 'list_states of %r: %r, the states are %r', path, [b[0] for b in blocks], states)
    for n, v, r in blocks:
        check(float(v) == want[n] and float(r) == 0.0, 'list_states of %r: %s has value %s and residual %s, expected %r and 0', path, n, v, r, want[n])
    check(('No states in %s.' % (path or 'model') in text) == (not states), 'list_states of %r with states %r: %r', path, states, text)
    # inputs
    stream = io.StringIO()
    un, outer = s.list_params(stream=stream)
    ins = tree.scope(path, tree.ins)
    wun = [a for a in ins if a not in tree.src]
    wouter = [a for a in ins if a in tree.src and not tree.scope(path, [tree.src[a]])]
    check(sorted(un) == sorted(wun), 'list_params of %r: unconnected inputs %r, expected %r', path, sorted(un), sorted(wun))
    check(sorted(outer) == sorted(wouter), 'list_params of %r: inputs connected outside %r, expected %r', path, sorted(outer), sorted(wouter))
    cut = len(path) + 1 if path else 0
    lines = [x for x in stream.getvalue().split('\n') if x.strip('-').strip() and not x.startswith(('No ', 'Unconnected ', 'Parameters '))]
    shown = []
    for a in un:
        n = tree.prom[path, a]
        shown.append(a[cut:] if n == a[cut:] else '%s (%s)' % (a[cut:], n))
    for a in outer:
        shown.append("%s: connected to '%s'" % (a[cut:], tree.src[a]))
    check(lines == shown, 'list_params of %r writes %r, expected %r', path, lines, shown)
    # units
    stream = io.StringIO()
    got = s.list_unit_conv(stream=stream)
    want = []
    for a, src in tree.src.items():
        if tree.scope(path, [a]) and tree.scope(path, [src]):
            u, v = tree.outs[src], tree.ins[a]
            if u != v:
                want.append(((src[cut:], a[cut:]), (u, v)))
    want.sort(key=lambda e: e[0])
    check(list(got) == want, 'list_unit_conv of %r: %r, expected %r', path, list(got), want)
    lines = [x for x in stream.getvalue().split('\n') if ' -> ' in x]
    check(lines == ['%s -> %s : %s -> %s' % (e[0] + e[1]) for e in want], 'list_unit_conv of %r writes %r, expected %r', path, lines, want)
    if want:
        log.label('unit conversions')
    # the tree
    for kw in ({}, {'sizes': True}, {'verbose': True}, {'dvecs': True}):
        stream = io.StringIO()
        s.dump(out_stream=stream, **kw)
        lines = [re.match(r"^( *)(\w+) '(\w*)'(.*)$", x) for x in stream.getvalue().split('\n')]
        lines = [m for m in lines if m]
        got = [((len(m.group(1)) - 1) // 3, m.group(2), m.group(3)) for m in lines]
        want = []
        for p in [path] + tree.systems(path):
            klass = ('ParallelGroup' if p in tree.parallel else 'Group') if p not in tree.comp else {'ivc': 'IndepVarComp', 'comp': 'Comp', 'implicit': 'Implicit'}[tree.comp[p]['kind']]
            depth = (p.count('.') + 1 if p else 0) - (path.count('.') + 1 if path else 0)
            want.append((depth, klass, p.rpartition('.')[2]))
        check(got == want, 'dump(%r) of %r shows %r, the tree is %r', kw, path, got, want)
        if 'sizes' in kw:
            for p, m in zip([path] + tree.systems(path), lines):
                n = len([a for a in tree.outs if (p, a) in tree.prom and a.rpartition('.')[2][0] != 'p'])
                check('usize:%d ' % n in m.group(4), 'dump of %r: %r, the system %r has %d values', path, m.group(4), p, n)
    if path in tree.comp:
        doc = s.generate_docstring()
        for a in tree.ins:
            if (path, a) in tree.prom:
                check(re.search(r'^ *%s *: param \(\{.*\}\)$' % a.rpartition('.')[2], doc, re.M), 'the docstring of %r does not describe the input %s: %r', path, a, doc)
        for a in tree.outs:
            if (path, a) in tree.prom:
                check(re.search(r'^ *%s *: unknown \(\{.*\}\)$' % a.rpartition('.')[2], doc, re.M), 'the docstring of %r does not describe %s: %r', path, a, doc)


# -- exported data ----------------------------------------------------------

def tree_data(tree, path):
    out = dict(name=path.rpartition('.')[2] or 'root', type='subsystem' if path else 'root', subsystem_type='component' if path in tree.comp else 'group')
    if path in tree.comp:
        kids = [dict(name=tree.prom[path, a], type='param') for a in tree.ins if (path, a) in tree.prom]
        kids += [dict(name=tree.prom[path, a], type='unknown', implicit=a in tree.states) for a in tree.outs if (path, a) in tree.prom]
    else:
        kids = [tree_data(tree, p) for p in tree.kids[path]]
    return dict(out, children=kids)


def plain(d):
    out = dict((k, v) for k, v in d.items() if k not in ('children', 'dtype'))
    if 'children' in d:
        out['children'] = [plain(c) for c in d['children']]
        if d.get('subsystem_type') == 'component':
            out['children'].sort(key=lambda c: (c['type'], c['name']))
    return out


def cycles(tree):
    """Sets of components that depend on each other."""
    comps = tree.components('')
    edges = set((s.rpartition('.')[0], t.rpartition('.')[0]) for t, s in tree.src.items())
    reach = dict((c, set(b for a, b in edges if a == c)) for c in comps)
    for k in comps:
        for c in comps:
            if k in reach[c]:
                reach[c] |= reach[k]
    return edges, dict((c, set(b for b in comps if b in reach[c] and c in reach[b])) for c in comps)


def check_connections_list(tree, got, what):
    edges, scc = cycles(tree)
    rank = dict((p, i) for i, p in enumerate(tree.components('')))
    want = {}
    for t, s in tree.src.items():
        a, b = s.rpartition('.')[0], t.rpartition('.')[0]
        arrows = []
        if a != b and b in scc[a]:
            low, high = sorted([rank[a], rank[b]])
            arrows = sorted('%s %s' % e for e in edges if e != (a, b) and all(x in scc[a] and low <= rank[x] <= high for x in e))
        want[s, t] = arrows
    seen = dict(((c['src'], c['tgt']), list(c.get('cycle_arrows', []))) for c in got)
    check(len(seen) == len(got) and sorted(seen) == sorted(want), '%s has the connections %r, expected %r', what, sorted(seen), sorted(want))
    for k in want:
        check(sorted(seen[k]) == want[k], '%s: with the connection %r come the arrows %r, expected %r', what, k, seen[k], want[k])
    return any(want.values())


def run_export(spec, log):
    from openmdao.devtools.partition_tree_n2 import get_model_viewer_data, view_model
    from openmdao.devtools import dotgraph
    tree, prob = model(spec, log)
    if prob is None:
        return
    want = plain(tree_data(tree, ''))
    for who, what in [(prob, 'the data of the problem'), (prob.root, 'the data of the root')]:
        data = get_model_viewer_data(who)
        check(plain(data['tree']) == want, '%s: the tree is %r, expected %r', what, plain(data['tree']), want)
        if check_connections_list(tree, data['connections_list'], what):
            log.label('cycles')
    for g in tree.systems(''):
        if g not in tree.comp:
            check(get_model_viewer_data(find(prob, g)) == {}, 'data for the inner group %r: %r', g, get_model_viewer_data(find(prob, g)))
    if spec['view']:
        log.label('page for ' + spec['view'])
        with Scratch():
            source = prob
            if spec['view'] != 'problem':
                from openmdao.recorders.hdf5_recorder import HDF5Recorder
                from openmdao.recorders.sqlite_recorder import SqliteRecorder
                source = 'cases.db'
                rec = SqliteRecorder(source) if spec['view'] == 'sqlite' else HDF5Recorder(source)
                prob.driver.add_recorder(rec)
                prob.setup(check=False)
                data = get_model_viewer_data(prob)     # setup may order independent systems in another way
                if spec['run']:
                    prob.run()
                prob.cleanup()
                rec.close()
            for kw in ({}, {'embed': True}, {'offline': False}):
                view_model(source, outfile='page.html', show_browser=False, **kw)
                with open('page.html') as f:
                    text = f.read()
                for name in ('tree', 'connections_list'):
                    check(json.dumps(data[name]) in text, 'the page for %s does not contain the %s of the model', spec['view'], name)
    # drawing of the tree
    with Scratch():
        dots = []

        def system(cmd):
            with open([w for w in cmd.split() if w.endswith('.dot')][0]) as f:
                dots.append(f.read())
            return 0

        class Browser(object):
            @staticmethod
            def get():
                return Browser

            @staticmethod
            def open(f):
                pass
        saved = dotgraph.os.system, dotgraph.webbrowser
        dotgraph.os.system, dotgraph.webbrowser = system, Browser
        try:
            dotgraph.plot_sys_tree(prob.root)
        finally:
            dotgraph.os.system, dotgraph.webbrowser = saved
        check(len(dots) == 1, 'plot_sys_tree made %d drawings', len(dots))
        edges = re.findall(r'^ *"([^"]*)" -> "([^"]*)"', dots[0], re.M)
        nodes = re.findall(r'^ *"([^"]*)" \[(.*)\];$', dots[0], re.M)
        want = [(g, p) for g in [''] + tree.systems('') for p in tree.kids.get(g, [])]
        check(sorted(edges) == sorted(want), 'plot_sys_tree draws the edges %r, expected %r', sorted(edges), sorted(want))
        nodes = dict((n, m) for n, m in nodes)
        for p in [''] + tree.systems(''):
            shape = 'ellipse' if p in tree.comp else 'parallelogram' if p in tree.parallel else 'rectangle'
            check(p in nodes and 'shape=' + shape in nodes[p] and 'label="%s"' % p.rpartition('.')[2] in nodes[p], 'plot_sys_tree draws %r as %r', p, nodes.get(p))
        check(len(nodes) == 1 + len(tree.systems('')), 'plot_sys_tree draws %r', sorted(nodes))


# -- table of connections, counts ------------------------------------------

def run_viewer(spec, log):
    from openmdao.devtools import debug
    from openmdao.util import viewconns
    tree, prob = model(spec, log)
    if prob is None:
        return
    for k, o in enumerate(tree.outs):
        if o.rpartition('.')[2][0] != 'p':
            prob[tree.prom['', o]] = float(10 + k)
    prob.run()
    vals = {}
    for o in tree.outs:
        vals[o] = float(prob[tree.prom['', o]])
    unit = lambda n, d: UNITS.get(d.get(n) or '', 1.0)
    everything = [''] + tree.systems('')
    groups = [g for g in everything if g not in tree.comp]
    for g in [None] + groups:
        who, path = (prob, '') if g is None else (find(prob, g), g)
        inside = lambda n: not path or n.startswith(path + '.')
        with Scratch():
            viewconns.view_connections(who, outfile='t.html', show_browser=False, src_filter='s', tgt_filter='t')
            with open('t.html') as f:
                text = f.read()
        with open(os.path.join(os.path.dirname(viewconns.__file__), 'connect_table.html')) as f:
            before, _, after = f.read().partition('<connection_data>')
        check(text.startswith(before) and text.endswith(after), 'the page is not the template with the data')
        data = json.loads(text[len(before):len(text) - len(after)])
        what = 'table of connections of %r: ' % path
        src = dict((t, s) for t, s in tree.src.items() if inside(t))
        want = {}
        for t, s in src.items():
            want.setdefault(s, []).append(t)
        got = dict((s, ts) for s, ts in data['src2tgts'])
        check(len(got) == len(data['src2tgts']), what + 'a source is listed twice')
        free = got.pop('NO CONNECTION')
        check(dict((s, sorted(ts)) for s, ts in got.items()) == dict((s, sorted(ts)) for s, ts in want.items()), what + 'it shows %r, expected %r', got, want)
        wfree = sorted(t for t in tree.ins if inside(t) and t not in tree.src)
        check(sorted(t for t in free if inside(t)) == wfree, what + 'unconnected inputs are %r, expected %r', free, wfree)
        wfree = sorted(o for o in tree.outs if inside(o) and o not in want)
        check(sorted(data['noconn_srcs']) == wfree, what + 'unconnected outputs are %r, expected %r', data['noconn_srcs'], wfree)
        for t in tree.ins:
            if not inside(t) or t.rpartition('.')[2][0] == 'p':
                continue
            w = 1.0 if t not in src else vals[src[t]]
            if t in src and tree.outs[src[t]] and tree.ins[t]:
                w *= unit(src[t], tree.outs) / unit(t, tree.ins)
            v = float(data['vals'][t].strip('[] '))
            check(abs(v - w) <= 1e-9 * abs(w), what + 'the value of %r is %r, expected %r', t, v, w)
            check((data['units'][t] or None) == tree.ins[t], what + 'the unit of %r is %r, expected %r', t, data['units'][t], tree.ins[t])
        for o in wfree:
            if o.rpartition('.')[2][0] != 'p':
                v = float(data['vals'][o].strip('[] '))
                check(abs(v - vals[o]) <= 1e-9 * abs(vals[o]), what + 'the value of %r is %r, expected %r', o, v, vals[o])
        # systems offered as filters: all that have a source or target inside
        for key, names in [('src_systems', want), ('tgt_systems', src)]:
            have = [d['name'] for d in data[key] if d['name'] != 'NO CONNECTION']
            need = set()
            for n in names:
                parts = n.split('.')
                need.update('.'.join(parts[:i]) for i in range(len(parts)))
            check(len(set(have)) == len(have) and need <= set(have) | set(['']), what + '%s are %r, expected %r', key, have, sorted(need))
        check(data['src_filter'] == 's' and data['tgt_filter'] == 't', what + 'filters are %r', data['src_filter'])
        log.label('inner table' if path else 'full table')
    # counts
    for g in groups:
        root = find(prob, g)
        below = [g] + tree.systems(g)
        check(debug.num_systems(root) == len(below) and debug.num_components(root) == len([p for p in below if p in tree.comp])
              and debug.num_groups(root) == len([p for p in below if p not in tree.comp]), 'counts of %r: %d systems, %d groups, %d components; it has %r', g,
              debug.num_systems(root), debug.num_groups(root), debug.num_components(root), below)


# -- names as text ----------------------------------------------------------

PARTS = ['a', 'ab', 'abc', 'b', 'g', 'g1', 'g10', 'x_1']


@st.composite
def texts(draw):
    return dict(one=draw(st.lists(st.sampled_from(PARTS), min_size=1, max_size=5)), two=draw(st.lists(st.sampled_from(PARTS), min_size=1, max_size=5)), same=draw(st.integers(0, 5)), expr=draw(expression()), look=draw(st.booleans()))


@st.composite
def expression(draw, depth=0):
    kind = draw(st.sampled_from(['var', 'num'] if depth > 3 else ['var', 'num', 'bin', 'bin', 'call', 'method', 'index', 'neg', 'cmp']))
    sub = lambda: draw(expression(depth=depth + 1))
    if kind == 'var':
        return ['var', draw(st.sampled_from(['x', 'y', 'sin2', 'abc', 'x_1', 'sin']))]
    if kind == 'num':
        return ['num', draw(st.integers(0, 9))]
    if kind == 'bin':
        return ['bin', draw(st.sampled_from(['+', '-', '*', '/', '**'])), sub(), sub()]
    if kind == 'cmp':
        return ['bin', draw(st.sampled_from(['<', '=='])), sub(), sub()]
    if kind == 'call':
        return ['call', draw(st.sampled_from(['sin', 'max', 'f'])), [sub() for _ in range(draw(st.integers(1, 2)))]]
    if kind == 'method':
        return ['call', draw(st.sampled_from(['np.sin', 'numpy.linalg.norm'])), [sub()]]
    if kind == 'index':
        return ['index', draw(st.sampled_from(['x', 'y'])), sub()]
    return ['neg', sub()]


def source(e):
    k = e[0]
    if k in ('var', 'num'):
        return str(e[1])
    if k == 'bin':
        return '(%s %s %s)' % (source(e[2]), e[1], source(e[3]))
    if k == 'call':
        return '%s(%s)' % (e[1], ', '.join(source(a) for a in e[2]))
    if k == 'index':
        return '%s[%s]' % (e[1], source(e[2]))
    return '-%s' % source(e[1])


def variables(e):
    k = e[0]
    if k == 'var':
        return set([e[1]])
    if k == 'num':
        return set()
    if k == 'bin':
        return variables(e[2]) | variables(e[3])
    if k == 'call':
        return set().union(*[variables(a) for a in e[2]])
    if k == 'index':
        return set([e[1]]) | variables(e[2])
    return variables(e[1])


def run_text(spec, log):
    from openmdao.util.string_util import get_common_ancestor, name_relative_to, nearest_child, parse_for_vars
    one = spec['one']
    two = one[:spec['same']] + spec['two']
    common = []
    for a, b in zip(one, two):
        if a != b:
            break
        common.append(a)
    got = get_common_ancestor('.'.join(one), '.'.join(two))
    check(got == '.'.join(common), 'get_common_ancestor(%r, %r) = %r, expected %r', '.'.join(one), '.'.join(two), got, '.'.join(common))
    log.label('%d common parts' % len(common))
    for k in range(len(two)):
        parent = '.'.join(two[:k])
        got = name_relative_to(parent, '.'.join(two))
        check(got == '.'.join(two[k:]), 'name_relative_to(%r, %r) = %r', parent, '.'.join(two), got)
        got = nearest_child(parent, '.'.join(two))
        check(got == two[k], 'nearest_child(%r, %r) = %r, expected %r', parent, '.'.join(two), got, two[k])
    text = source(spec['expr'])
    got = set(parse_for_vars(text))
    want = variables(spec['expr'])
    check(got == want, 'parse_for_vars(%r) = %r, expected %r', text, sorted(got), sorted(want))
    if want:
        log.nontrivial()


RULE = 'a nested model with promoted variables and connections'
FACETS = [
    Facet('iterate', trees, run_iterate, quick=500, thorough=10000, rule=RULE),
    Facet('names', trees, run_names, quick=600, thorough=12000, rule=RULE),
    Facet('connections', trees, run_connections, quick=800, thorough=16000, rule=RULE),
    Facet('listings', trees, run_listings, quick=600, thorough=12000, rule=RULE),
    Facet('export', trees, run_export, quick=400, thorough=8000, rule=RULE),
    Facet('viewer', trees, run_viewer, quick=160, thorough=6000, rule=RULE),
    Facet('text', texts, run_text, quick=800, thorough=16000, rule='the expression has a variable'),
]
