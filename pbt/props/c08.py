"""C08 setup rejects ill-formed connections and accepts well-formed ones."""
import io

import numpy as np
from hypothesis import strategies as st

from pbt.core import Facet, Violation, check
from pbt.models import FAMILIES, FAMILY, Model, full, gen_model, nsize

ASSUMPTIONS = ['ill-formed edits are single edits of a model that setup accepts',
               'inside a cycle the execution-order report may name any pair of its members', 'serial execution']

EDITS = ['nosrc', 'notgt', 'tgtout', 'type', 'shape', 'idxhigh', 'idxneg', 'idxlen', 'units', 'twosrc', 'twoprom',
         'chain2', 'promout', 'prombad', 'inunits', 'invals', 'inmeta', 'noshape', 'pbotype']
I = st.integers(0, 10 ** 4)


@st.composite
def edits(draw):
    m = draw(gen_model(max_comps=5, kinds=('lin', 'mf', 'exec'), scatter=draw(st.booleans())))
    return dict(model=m, edit=draw(st.sampled_from(EDITS)), k=draw(st.lists(I, min_size=8, max_size=8)))


def seen_from(model, lvl, gpath, name):
    """Name, seen from group lvl, of something called `name` in the group gpath below it."""
    for d in range(len(gpath), len(lvl), -1):
        path = gpath[:d]
        prom = model.promotes[path]
        if not (prom and model._prom_arg(path, prom) == ['*']):
            name = gpath[d - 1] + '.' + name
    return name


class Edit(object):
    """Adds one or two components and one connection (good or bad) to a model."""

    def __init__(self, model, spec, bad):
        self.m, self.kind, self.bad = model, spec['edit'], bad
        self.k = list(spec['k'])
        self.adds = {}            # group path -> [(name, component args, promotes)]
        self.conns = {}           # group path -> [(src, tgt, idx)]
        self.names = ['zq', 'zr', 'zz', 'zy']
        self.ok = True
        getattr(self, 'e_' + self.kind)()

    def pick(self, seq):
        seq = list(seq)
        v = self.k.pop(0)
        self.k.append(v // 3 + 1)
        return seq[v % len(seq)] if seq else None

    def group(self):
        return self.pick([g['_path'] for g in self.m.groups
                          if g['_path'] == () or g.get('kind') != 'ParallelGroup'])

    def add(self, path, name, params=(), outs=(), promotes=None):
        self.adds.setdefault(path, []).append((name, list(params), list(outs), promotes))

    def conn(self, path, src, tgt, idx=None):
        self.conns.setdefault(path, []).append((src, tgt, idx))

    def out(self, ok=lambda o: True):
        """An existing differentiable output."""
        key = self.pick(k for k in self.m.unknown_keys() if ok(self.m.comps[k[0]]['outs'][k[2]]))
        if key is None:
            self.ok = False
            return None, None
        return key, self.m.comps[key[0]]['outs'][key[2]]

    def at(self, gpath, key):
        """Level (group path) from which both gpath and the variable are visible."""
        cpath = self.m.comps[key[0]]['_path'][:-1]
        d = 0
        while d < len(gpath) and d < len(cpath) and gpath[d] == cpath[d]:
            d += 1
        return gpath[:self.pick(range(d + 1))]

    def rel(self, lvl, gpath, *tail):
        return seen_from(self.m, lvl, gpath, '.'.join(tail))

    def target(self, param, prom=None):
        """Adds component zz with one input; returns (group path, name parts)."""
        g = self.group()
        prom = self.pick([False, True]) if prom is None else prom
        self.add(g, 'zz', [param], promotes=['zq'] if prom else None)
        return g, (('zq',) if prom else ('zz', 'zq'))

    def wire(self, key, g, tail, idx=None):
        lvl = self.at(g, key)
        self.conn(lvl, self.m.prom_at[(lvl, key)], self.rel(lvl, g, *tail), idx)

    # -- edits (each has a well-formed twin) ----------------------------------
    def e_nosrc(self):
        key, o = self.out()
        g, tail = self.target(('zq', o['s'], {}))
        lvl = self.at(g, key)
        src = good = self.m.prom_at[(lvl, key)]
        if self.bad:
            full_name = self.m.abs_name(key)
            alt = [good + 'x', 'nope', 'zz.nope', good.rsplit('.', 1)[0] + '.nope', full_name]
            src = self.pick([a for a in alt if a != good and a not in self.m.visible[lvl]])
            self.names.append(src)
        self.conn(lvl, src, self.rel(lvl, g, *tail))

    def e_notgt(self):
        key, o = self.out()
        g, tail = self.target(('zq', o['s'], {}))
        lvl = self.at(g, key)
        tgt = good = self.rel(lvl, g, *tail)
        if self.bad:
            tgt = self.pick([a for a in [good + 'x', 'zz', 'nope', 'zz.nope', self.rel(lvl, g, 'zz', 'zq')]
                             if a != good])
            self.names.append(tgt)
        self.conn(lvl, self.m.prom_at[(lvl, key)], tgt)

    def e_tgtout(self):
        key, o = self.out()
        g = self.group()
        self.add(g, 'zz', [('zq', o['s'], {})], [('zo', o['s'], {})])
        self.names.append('zo')
        self.wire(key, g, ('zz', 'zo' if self.bad else 'zq'))

    def e_type(self):
        key, o = self.out()
        s = o['s']
        if self.bad:
            s = [1] if o['s'] == 0 else 0
        g, tail = self.target(('zq', s, {}))
        self.wire(key, g, tail)

    def e_pbotype(self):
        key, o = self.out()
        g = self.group()
        vals = ['text', [1, 2], {'a': 1}]
        v = self.pick(vals)
        if self.bad:
            g, tail = self.target(('zq', 'obj', v))
            self.wire(key, g, tail)
        else:
            self.add(g, 'zz', [('zq', 'obj', v)])
            self.add(g, 'zy', [], [('zr', 'obj', v)])
            self.conn(g, 'zy.zr', 'zz.zq')

    def e_shape(self):
        key, o = self.out(lambda o: o['s'] != 0)
        if key is None:
            return
        s = list(o['s'])
        if self.bad:
            s = self.pick([s[:-1] + [s[-1] + 1], s + [2], [nsize(s) + 2], s[1:] + [s[0] + 1]])
        g, tail = self.target(('zq', s, {}))
        self.wire(key, g, tail)

    def _idx(self, mk):
        key, o = self.out(lambda o: o['s'] != 0)
        if key is None:
            return
        n = nsize(o['s'])
        idx = [self.pick(range(n)) for _ in range(self.pick([1, 2, 3, n]))]
        shape = [len(idx)]
        if self.bad:
            idx, shape = mk(n, idx, o)
        on_param = self.pick([False, True])
        g, tail = self.target(('zq', shape, dict(src_indices=np.array(idx)) if on_param else {}))
        if on_param and tail == ('zz', 'zq'):
            on_param = False                    # declared on the parameter only works by promotion/expl.
        self.wire(key, g, tail, idx)

    def e_idxhigh(self):
        def mk(n, idx, o):
            idx[self.pick(range(len(idx)))] = self.pick([n, n + 1, 1000])
            return idx, [len(idx)]
        self._idx(mk)

    def e_idxneg(self):
        def mk(n, idx, o):
            idx[self.pick(range(len(idx)))] = self.pick([-1, -2, -n])
            return idx, [len(idx)]
        self._idx(mk)

    def e_idxlen(self):
        def mk(n, idx, o):
            # often the target has the shape of the whole source
            s = self.pick([list(o['s']), [len(idx) + 1], list(o['s'])])
            if nsize(s) == len(idx):
                idx = idx + [0]
            return idx, s
        self._idx(mk)

    def e_units(self):
        key, o = self.out(lambda o: o['u'] is not None)
        if key is None:
            return
        fam = FAMILY[o['u']]
        if self.bad:
            fam = self.pick(f for f in range(len(FAMILIES)) if f != fam)
        g, tail = self.target(('zq', o['s'], dict(units=self.pick(FAMILIES[fam]))))
        self.wire(key, g, tail)

    def e_twosrc(self):
        cand = [k for k in self.m.param_keys() if (self.m.comps[k[0]]['ins'][k[2]]['src'] is None) != self.bad
                and not self.m.comps[k[0]]['ins'][k[2]].get('noshape')]
        key = self.pick(cand)
        if key is None:
            self.ok = False
            return
        p = self.m.comps[key[0]]['ins'][key[2]]
        g = self.group()
        self.add(g, 'zz', [], [('zo', p['s'], {})])
        lvl = self.at(g, key)
        self.names.append(self.m.abs_name(key))
        self.conn(lvl, self.rel(lvl, g, 'zz', 'zo'), self.m.prom_at[(lvl, key)])

    def e_twoprom(self):
        """An input that is promoted to the name of an output gets an explicit source as well."""
        g = self.group()
        self.add(g, 'zz', [('zq', 0, {})], promotes=['zq'])
        self.add(g, 'zy', [], [('zq', 0, {})], promotes=['zq'])
        key, o = self.out(lambda o: o['s'] == 0)
        if key is None:
            return
        if self.bad:
            self.wire(key, g, ('zq',))

    def e_chain2(self):
        """One sourceless input linked to inputs of two different sources."""
        g = self.group()
        self.add(g, 'zz', [('zq', 0, {})])
        self.add(g, 'zy', [('z1', 0, {}), ('z2', 0, {})])
        self.add(g, 'zw', [], [('o1', 0, {}), ('o2', 0, {})])
        self.conn(g, 'zw.o1', 'zy.z1')
        self.conn(g, 'zw.o2' if self.bad else 'zw.o1', 'zy.z2')
        a = [('zz.zq', 'zy.z1'), ('zz.zq', 'zy.z2')]
        if self.pick([0, 1]):
            a.reverse()
        for s, t in a:
            if self.pick([0, 1]):
                s, t = t, s
            self.conn(g, s, t)

    def e_promout(self):
        cand = [(g, n) for g in sorted(self.m.visible) for n in sorted(self.m.visible[g])
                if '.' not in n and any(k[1] == 'o' for k in self.m.visible[g][n])]
        c = self.pick(cand)
        if c is None:
            self.ok = False
            return
        g, n = c
        if g and any(node['_path'] == g and node.get('kind') == 'ParallelGroup' for node in self.m.groups):
            self.ok = False
            return
        self.names.append(n)
        n = n if self.bad else 'zo_unique'
        self.add(g, 'zz', [], [(n, 0, {})], promotes=[n])

    def e_prombad(self):
        g = self.group()
        self.add(g, 'zz', [('zq', 0, {})], [('zo', 0, {})],
                 promotes=['zq', self.pick(['nope', 'zq2', 'z', '?', 'x*', 'zz.zq', 'zoo']) if self.bad else 'z*'])

    def _pair(self, a, b):
        g = self.group()
        how = self.pick(['prom', 'conn', 'prom'])
        names = [('zz', a), ('zy', b)]
        if self.pick([0, 1]):
            names.reverse()
        for n, p in names:
            self.add(g, n, [p], promotes=['zq'] if how == 'prom' else None)
        if how == 'conn':
            self.conn(g, names[0][0] + '.zq', names[1][0] + '.zq')
        return g

    def e_inunits(self):
        fam = self.pick(FAMILIES)
        u = self.pick(fam)
        v = u
        if self.bad:
            v = self.pick(w for w in sum(FAMILIES, []) if w != u)
        self._pair(('zq', 0, dict(units=u)), ('zq', 0, dict(units=v)))

    def e_invals(self):
        s = self.pick([0, [2], [2, 2]])
        v = np.arange(nsize(s)) / 2.0
        w = v.copy()
        if self.bad:
            w[self.pick(range(nsize(s)))] += self.pick([1.0, -0.25, 1e-3])
        self._pair(('zq', s, dict(val=v)), ('zq', s, dict(val=w)))

    def e_inmeta(self):
        key, (a, b) = self.pick([('step_size', (1e-3, 1e-4)), ('form', ('forward', 'central')),
                                 ('step_calc', ('relative', 'absolute'))])
        g = self.group()
        for n, v in (('zz', a), ('zy', b if self.bad else a)):
            self.add(g, n, [('zq', 0, {key: v})], promotes=['zq'])

    def e_noshape(self):
        key, o = self.out()
        g, tail = self.target(('zq', None, {}))
        if not self.bad:
            idx = None
            if o['s'] != 0 and self.pick([0, 1]):
                idx = [self.pick(range(nsize(o['s']))) for _ in range(self.pick([1, 2, 3]))]
            self.wire(key, g, tail, idx)

    # -- building -------------------------------------------------------------
    def configure(self, node, g):
        from openmdao.api import Component

        class Extra(Component):
            def __init__(self, params, outs):
                super(Extra, self).__init__()
                for add, items in ((self.add_param, params), (self.add_output, outs)):
                    for n, s, kw in items:
                        if s == 'obj':
                            add(n, kw, pass_by_obj=True)
                        elif s is None:
                            add(n, **kw)
                        else:
                            kw = dict(kw)
                            val = kw.pop('val', np.zeros(nsize(s)))
                            add(n, full(s, val), **kw)

            def solve_nonlinear(self, params, unknowns, resids):
                pass
        for name, params, outs, prom in self.adds.get(node['_path'], ()):
            g.add(name, Extra(params, outs), promotes=prom)
        for s, t, idx in self.conns.get(node['_path'], ()):
            if idx is None:
                g.connect(s, t)
            else:
                g.connect(s, t, src_indices=idx)


def solvers(node, g):
    from openmdao.api import ScipyGMRES, NLGaussSeidel
    g.ln_solver = ScipyGMRES()
    g.nl_solver = NLGaussSeidel()
    g.nl_solver.options['iprint'] = -1
    g.nl_solver.options['maxiter'] = 2


def run_edit(spec, log):
    model = Model(spec['model'])
    log.label(spec['edit'])
    good = Edit(model, spec, False)

    def conf(e):
        def configure(node, g):
            solvers(node, g)
            e.configure(node, g)
        return configure
    if good.ok:
        prob = model.build(conf(good))       # any exception: a well-formed model was rejected
        prob.run()
    bad = Edit(model, spec, True)
    if not bad.ok:
        log.label('not applicable')
        return
    log.nontrivial()
    log.label('done:' + spec['edit'])
    try:
        prob = model.build(conf(bad))
    except Exception as err:
        text = str(err)
        check(any(n in text for n in bad.names), 'setup raised for the ill-formed model, but the message names '
              'nothing of it: %s: %s', type(err).__name__, text[:300])
    else:
        raise Violation('setup accepted an ill-formed model (%s): added %s, connected %s' %
                        (spec['edit'], sorted(bad.adds.items()), sorted(bad.conns.items())))


# ------------------------------------------------------------------ reports

@st.composite
def reports(draw):
    scatter = draw(st.booleans())
    cyc = draw(st.integers(0, 2)) == 0
    m = draw(gen_model(max_comps=7, kinds=('lin', 'mf', 'exec'), scatter=scatter, cyclic=cyc))
    return dict(model=m, shuffle=[[draw(st.integers(0, 2)) > 0, draw(st.integers(0, 10 ** 6))] for _ in range(8)],
                extra=draw(st.lists(st.tuples(st.integers(0, 20), st.sampled_from(['lonely', 'noout', 'noin']))
                                    .map(list), max_size=2)), text=draw(st.booleans()))


def run_report(spec, log):
    import random
    from openmdao.api import Component
    model = Model(spec['model'])
    groups = [g['_path'] for g in model.groups]
    orders = {}
    adds = {}
    for j, (gi, kind) in enumerate(spec['extra']):
        adds.setdefault(groups[gi % len(groups)], []).append(('zx%d' % j, kind))

    class Extra(Component):
        def __init__(self, kind):
            super(Extra, self).__init__()
            if kind != 'noin':
                self.add_param('zi', 1.0)
            if kind != 'noout':
                self.add_output('zo', 1.0)

        def solve_nonlinear(self, params, unknowns, resids):
            pass

    def configure(node, g):
        solvers(node, g)
        for n, kind in adds.get(node['_path'], ()):
            g.add(n, Extra(kind))
        i = groups.index(node['_path'])
        on, seed = spec['shuffle'][i % len(spec['shuffle'])]
        if on:
            names = list(g._subsystems)
            random.Random(seed).shuffle(names)
            g.set_order(names)
    prob = model.build(configure, setup=False)
    out = io.StringIO()
    res = prob.setup(check=True, out_stream=out)
    text = out.getvalue()

    # ---- oracle: from the description and the execution order alone
    kids = {}
    for node in model.groups:
        sub = prob.root
        for part in node['_path']:
            sub = sub.find_subsystem(part)
        kids[node['_path']] = [s.name for s in sub.subsystems()]
    order = []

    def flat(path):
        for n in kids[path]:
            p = path + (n,)
            if p in kids:
                flat(p)
            else:
                order.append(p)
    flat(())
    when = dict((p, i) for i, p in enumerate(order))

    dang = set(model.root_name(k) for k in model.dangling_keys())
    lonely, noout = set(), set()
    for gpath, items in adds.items():
        for n, kind in items:
            lonely.add('.'.join(gpath + (n,)))
            if kind != 'noin':
                dang.add(extra_name(model, gpath, n, 'zi'))
            if kind == 'noout':
                noout.add('.'.join(gpath + (n,)))
    edges = []
    for ci, c in enumerate(model.comps):
        for p in c['ins']:
            if p['src'] is not None:
                edges.append((p['src'][0], ci, '.'.join(c['_path'] + (p['n'],))))
    touched = set(e[0] for e in edges) | set(e[1] for e in edges)
    for ci, c in enumerate(model.comps):
        if ci not in touched:
            lonely.add('.'.join(c['_path']))
    ubcs = sorted(t for a, b, t in edges if when[model.comps[a]['_path']] > when[model.comps[b]['_path']])

    def same(what, got, want):
        check(sorted(got) == sorted(want), 'check_setup reports %s = %s, expected %s', what, sorted(got), sorted(want))
    same('dangling_params', res['dangling_params'], dang)
    same('no_unknown_comps', res['no_unknown_comps'], noout)
    same('no_connect_comps', res['no_connect_comps'], lonely)
    same('ubcs', res['ubcs'], ubcs)
    for n in list(dang) + sorted(lonely) + sorted(noout) + ubcs:
        check(n in text, 'the printed report does not name %s', n)

    cycles, ooo = [], {}
    sure, maybe = {}, {}
    for node in model.groups:
        path = node['_path']
        d = len(path)
        names = kids[path]
        reach = dict((a, set()) for a in names)
        direct = set()
        for a, b, _ in edges:
            pa, pb = model.comps[a]['_path'], model.comps[b]['_path']
            if pa[:d] == path and pb[:d] == path and pa[d] != pb[d]:
                reach[pa[d]].add(pb[d])
                direct.add((pa[d], pb[d]))
        for k in names:
            for a in names:
                if k in reach[a]:
                    reach[a] |= reach[k]
        scc = set()
        for a in names:
            s = frozenset(b for b in names if b in reach[a] and a in reach[b])
            if len(s) > 1:
                scc.add(s)
        if scc:
            cycles.append(sorted([n for n in names if n in s] for s in scc))
        pos = dict((n, i) for i, n in enumerate(names))
        cyclic = set(x for s in scc for x in s)
        may = set((b, a) for a in names for b in reach[a] if a != b and pos[b] < pos[a])
        if scc:
            must = set((b, a) for a, b in direct if pos[b] < pos[a] and a not in reach[b])
        else:
            must = may
        gname = '.'.join(path)
        maybe[gname], sure[gname] = may, must
    got_cycles = [sorted(c) for c in res['cycles']]
    check(sorted(got_cycles) == sorted(cycles), 'check_setup reports cycles %s, expected %s', res['cycles'], cycles)
    got = {}
    for gname, items in res['out_of_order']:
        got[gname] = set((str(n), str(s)) for n, subs in items for s in subs)
    for gname in sure:
        g = got.get(gname, set())
        check(sure[gname] <= g <= maybe[gname], 'group %r runs its subsystems in the order %s: reported out of order '
              '%s, expected %s', gname, kids[tuple(gname.split('.')) if gname else ()], sorted(g), sorted(sure[gname]))
    check(set(got) <= set(sure), 'out_of_order names unknown groups %s', sorted(got))
    if dang:
        log.label('dangling')
    if cycles:
        log.label('cycles')
    if any(sure.values()):
        log.label('out of order')
    if ubcs:
        log.label('ubcs')
    if lonely:
        log.label('lonely')
    log.nontrivial(bool(dang or cycles or any(sure.values()) or ubcs or lonely))


def extra_name(model, gpath, comp, var):
    return seen_from(model, (), gpath, comp + '.' + var)


# ------------------------------------------------------------------ linear solvers

SOLVERS = ['gs1', 'gs1', 'gs1', 'gs9', 'gmres', 'direct']


@st.composite
def solvings(draw):
    m = draw(gen_model(max_comps=6, kinds=('lin', 'mf'), scatter=draw(st.booleans()), impl=draw(st.sampled_from([0, 30])),
                       cyclic=draw(st.integers(0, 2)) == 0))
    return dict(model=m, lin=draw(st.lists(st.sampled_from(SOLVERS), min_size=8, max_size=8)),
                own=draw(st.lists(st.booleans(), min_size=6, max_size=6)))


def run_solving(spec, log):
    from openmdao.api import Component, LinearGaussSeidel, ScipyGMRES, DirectSolver, NLGaussSeidel
    from pbt.models import make_comp
    model = Model(spec['model'])
    groups = [g['_path'] for g in model.groups]
    pick = dict((p, spec['lin'][i % len(spec['lin'])]) for i, p in enumerate(groups))
    own = dict((ci, spec['own'][ci % len(spec['own'])]) for ci in range(len(model.comps)))

    def configure(node, g):
        kind = pick[node['_path']]
        g.ln_solver = ScipyGMRES() if kind == 'gmres' else DirectSolver() if kind == 'direct' else LinearGaussSeidel()
        if kind == 'gs9':
            g.ln_solver.options['maxiter'] = 9
        g.nl_solver = NLGaussSeidel()
        g.nl_solver.options['iprint'] = -1
        g.nl_solver.options['maxiter'] = 2

    def factory(model, ci, log):
        c = make_comp(model, ci, log)
        if not own[ci] and any(o.get('state') for o in model.comps[ci]['outs']):
            # (generated components with states come with a solve_linear of their own, which this one has not)
            attrs = {}
            for klass in reversed(type(c).__mro__[:type(c).__mro__.index(Component)]):
                attrs.update((k, v) for k, v in vars(klass).items() if k not in ('solve_linear', '__dict__', '__weakref__'))
            c.__class__ = type('Bare', (Component,), attrs)
        return c

    # a group whose linear problem has to be iterated, by itself or by one around it
    def iterated(path):
        return any(pick[path[:d]] != 'gs1' for d in range(len(path) + 1))
    bad = []
    for ci, c in enumerate(model.comps):
        if any(o.get('state') for o in c['outs']) and not own[ci] and not iterated(c['_path'][:-1]):
            bad.append('state ' + '.'.join(c['_path']))
    for path in groups:
        d = len(path)
        reach = {}
        for ci, c in enumerate(model.comps):
            for p in c['ins']:
                if p['src'] is not None:
                    a, b = model.comps[p['src'][0]]['_path'], c['_path']
                    if a[:d] == path and b[:d] == path and a[d] != b[d]:
                        reach.setdefault(a[d], set()).add(b[d])
        for k in list(reach):
            for a in list(reach):
                if k in reach[a]:
                    reach[a] |= reach[k]
        if any(a in reach[a] for a in reach) and not iterated(path):
            bad.append('cycle in %r' % '.'.join(path))
    prob = model.build(configure, setup=False, comp_factory=factory)
    try:
        prob.setup(check=False)
    except RuntimeError as err:
        check('LinearGaussSeidel solver with maxiter==1' in str(err), 'setup raised %s', err)
        check(bad, 'setup rejected a model whose linear solvers (%s) can solve it: %s', pick, err)
        log.label('rejected')
    else:
        check(not bad, 'setup accepted linear solvers %s, which cannot solve the model: %s', pick, bad)
        log.label('accepted')
    log.nontrivial(bool(bad) or any(o.get('state') for c in model.comps for o in c['outs']))


@st.composite
def nestings(draw):
    # one line of groups, with a loop or a state in any of them
    n = draw(st.integers(1, 6))
    return dict(lin=draw(st.lists(st.sampled_from(SOLVERS + ['gs1'] * 6), min_size=n, max_size=n)),
                what=draw(st.sampled_from(['loop', 'loop', 'state', 'both', 'nothing'])), loop=draw(st.integers(0, 5)), state=draw(st.integers(0, 5)),
                extra=draw(st.integers(0, 2)))


def run_nesting(spec, log):
    from openmdao.api import Problem, Group, Component, ExecComp, LinearGaussSeidel, ScipyGMRES, DirectSolver

    class State(Component):
        def __init__(self):
            super(State, self).__init__()
            self.add_state('z', 1.0)

        def solve_nonlinear(self, params, unknowns, resids):
            pass

        def apply_nonlinear(self, params, unknowns, resids):
            resids['z'] = unknowns['z'] - 1.
    prob = Problem(root=Group())
    chain = [prob.root]
    for i in range(1, len(spec['lin'])):
        chain.append(chain[-1].add('g%d' % i, Group()))
    for g, kind in zip(chain, spec['lin']):
        for k in range(spec['extra']):
            g.add('e%d' % k, ExecComp('y=.5*x'))
        g.ln_solver = ScipyGMRES() if kind == 'gmres' else DirectSolver() if kind == 'direct' else LinearGaussSeidel()
        if kind == 'gs9':
            g.ln_solver.options['maxiter'] = 9
    bad = []
    if spec['what'] in ('loop', 'both'):
        k = spec['loop'] % len(chain)
        chain[k].add('s', ExecComp('y=.5*x'))
        chain[k].add('t', ExecComp('y=.5*x'))
        chain[k].connect('s.y', 't.x')
        chain[k].connect('t.y', 's.x')
        if all(x == 'gs1' for x in spec['lin'][:k + 1]):
            bad.append('loop at depth %d' % k)
    if spec['what'] in ('state', 'both'):
        k = spec['state'] % len(chain)
        chain[k].add('z', State())
        if all(x == 'gs1' for x in spec['lin'][:k + 1]):
            bad.append('state at depth %d' % k)
    try:
        prob.setup(check=False)
    except RuntimeError as err:
        check('LinearGaussSeidel solver with maxiter==1' in str(err), 'setup raised %s', err)
        check(bad, 'setup rejected solvers %s from the outermost group in: %s', spec['lin'], err)
        log.label('rejected')
    else:
        check(not bad, 'setup accepted solvers %s from the outermost group in, which cannot solve: %s', spec['lin'], bad)
        log.label('accepted')
    log.nontrivial(spec['what'] != 'nothing' and len(chain) > 1)


# ------------------------------------------------------------------ other things that are reported

@st.composite
def issues(draw):
    n = draw(st.integers(1, 5))
    comps = []
    for i in range(n):
        comps.append(dict(grp=draw(st.integers(0, 2)), prom=draw(st.booleans()), pbo=draw(st.sampled_from([None, None, 'marked', 'unmarked'])),
                          obj=draw(st.sampled_from([[1], 'text', {'a': 1}])), size=draw(st.integers(1, 3))))
    # (later components sit in later groups: no cycles between the groups)
    for c, g in zip(comps, sorted(c['grp'] for c in comps)):
        c['grp'] = g
    return dict(comps=comps, kinds=draw(st.lists(st.sampled_from(['Group', 'ParallelGroup']), min_size=3, max_size=3)), driver=draw(st.sampled_from(['base', 'slsqp', 'cobyla', 'doe'])),
                tol=draw(st.lists(st.booleans(), min_size=5, max_size=5)), rec=draw(st.sampled_from([[], [], ['driver'], ['root'], ['linear'], ['g0', 'driver']])),
                mode=draw(st.sampled_from(['auto', 'fwd', 'rev'])), indep=draw(st.integers(1, 6)), own=draw(st.booleans()))


def run_issues(spec, log):
    import contextlib
    from openmdao.api import (Problem, Group, ParallelGroup, Component, IndepVarComp, ScipyOptimizer, Driver, UniformDriver)
    from openmdao.recorders.base_recorder import BaseRecorder

    class Rec(BaseRecorder):
        def record_metadata(self, group):
            pass

    class Comp(Component):
        def __init__(self, c):
            super(Comp, self).__init__()
            self.add_param('x%d' % c['i'], np.zeros(spec['indep']))
            self.add_output('y%d' % c['i'], np.zeros(c['size']))
            if c['pbo']:
                kw = dict(pass_by_obj=True) if c['pbo'] == 'marked' else {}
                self.add_output('o%d' % c['i'], c['obj'], **kw)
            if c['i'] and spec['comps'][c['i'] - 1]['pbo']:
                self.add_param('i%d' % c['i'], spec['comps'][c['i'] - 1]['obj'], pass_by_obj=True)

        def solve_nonlinear(self, params, unknowns, resids):
            pass

        def check_setup(self, out_stream=None):
            if spec['own'] and 'o' in ''.join(self._init_unknowns_dict):
                out_stream.write('own remark of ' + self.pathname)
    drv = dict(base=Driver, slsqp=ScipyOptimizer, cobyla=ScipyOptimizer, doe=UniformDriver)[spec['driver']]()
    if spec['driver'] in ('slsqp', 'cobyla'):
        drv.options['optimizer'] = spec['driver'].upper()
    prob = Problem(root=Group(), driver=drv)
    root = prob.root
    gs = [root.add('g%d' % i, ParallelGroup() if k == 'ParallelGroup' else Group()) for i, k in enumerate(spec['kinds'])]
    root.add('p', IndepVarComp('x', np.zeros(spec['indep'])), promotes=['*'])
    name, path = {}, {}
    for i, c in enumerate(spec['comps']):
        c = dict(c, i=i)
        gs[c['grp']].add('c%d' % i, Comp(c), promotes=['*'] if c['prom'] else None)
        path[i] = 'g%d.c%d' % (c['grp'], i)
        name[i] = 'g%d.' % c['grp'] if c['prom'] else path[i] + '.'
        root.connect('x', name[i] + 'x%d' % i)
        if i and spec['comps'][i - 1]['pbo']:
            root.connect(name[i - 1] + 'o%d' % (i - 1), name[i] + 'i%d' % i)
    if spec['driver'] != 'base':
        drv.add_desvar('x', lower=-1., upper=1.)
    drv.add_objective(name[0] + 'y0')
    actives = []
    if spec['driver'] != 'doe':
        for i in range(1, len(name)):
            kw = {}
            if spec['tol'][i]:
                kw['active_tol'] = .1
                actives.append(name[i] + 'y%d' % i)
            drv.add_constraint(name[i] + 'y%d' % i, upper=1., **kw)
    recs = []
    for w in spec['rec']:
        recs.append(Rec())
        if w == 'driver':
            drv.add_recorder(recs[-1])
        else:
            (root.nl_solver if w == 'root' else root.ln_solver if w == 'linear' else gs[0].nl_solver).recorders.append(recs[-1])
    if spec['mode'] != 'auto':
        root.ln_solver.options['mode'] = spec['mode']
    out, stdout = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(stdout):
        res = prob.setup(check=True, out_stream=out)
    text = out.getvalue()
    check(stdout.getvalue() == '', 'the report was asked for in a stream, but standard output got %r', stdout.getvalue())
    check(sorted(map(id, res['recorders'])) == sorted(map(id, recs)), 'recorders found: %r, attached: %r', res['recorders'], spec['rec'])
    check(('No recorders have been specified' in text) == (not recs), 'remark on recorders with %s', spec['rec'])
    want = sorted('g%d' % i for i, k in enumerate(spec['kinds']) if k == 'ParallelGroup')
    check(sorted(res['mpi']) == want, 'parallel groups %s, expected %s', res['mpi'], want)
    want = dict((path[i], [('o%d' % i, c['obj'])]) for i, c in enumerate(spec['comps']) if c['pbo'] == 'unmarked')
    check(dict((k, list(v)) for k, v in res['unmarked_pbos']) == want, 'objects that are not declared: %s, expected %s', res['unmarked_pbos'], want)
    for i, c in enumerate(spec['comps']):
        check(('%s.o%d: type %s' % (path[i], i, type(c['obj']).__name__) in text) == (c['pbo'] == 'unmarked'), 'the report on undeclared object %s.o%d', path[i], i)
    if spec['driver'] != 'doe':
        want = {} if not actives or spec['driver'] == 'base' else dict(active_tol=sorted(actives))
        check(dict((k, sorted(v)) for k, v in res['driver_issues'].items()) == want, 'driver issues are %s, expected %s', res['driver_issues'], want)
        check(('does not support an active set' in text) == bool(want), 'remark on active_tol')
    for i, c in enumerate(spec['comps']):
        mine = spec['own'] and bool(c['pbo'])
        check((res.get('@' + path[i]) == 'own remark of ' + path[i]) == mine and ('own remark of ' + path[i] in text) == mine, 'own check of %s: %r', path[i], res.get('@' + path[i]))
    p_size = spec['indep'] if spec['driver'] != 'base' else 0
    check(res['mode'][0] == spec['mode'] or spec['mode'] == 'auto' and res['mode'][0] in ('fwd', 'rev'), 'mode is %s, asked for %s', res['mode'], spec['mode'])
    if spec['driver'] not in ('base', 'doe'):
        u_size = sum(c['size'] for c in spec['comps'])
        want = 'fwd' if p_size <= u_size else 'rev'
        check(res['mode'][1] == want, 'recommended mode %s for %d inputs and %d outputs', res['mode'][1], p_size, u_size)
        check(('Specified derivative mode is' in text) == (res['mode'][0] != want), 'remark on the mode')
    if spec['driver'] == 'slsqp':
        check(res['relevant_pbos'] == [] or 'requires a gradient across a model with pass_by_obj' in text, 'no warning for %s', res['relevant_pbos'])
        log.label('relevant objects' if res['relevant_pbos'] else 'no relevant objects')
    else:
        check(res['relevant_pbos'] == [], 'relevant objects %s, but the driver needs no gradients', res['relevant_pbos'])
    check(text.strip().startswith('####') and 'Setup: Checking root problem' in text and 'Check of root problem complete.' in text, 'the report is %r', text[:200])
    log.nontrivial()


FACETS = [
    Facet('edits', edits, run_edit, 400, rule='an ill-formed edit applied to a well-formed model'),
    Facet('reports', reports, run_report, 200, rule='something to report: unconnected inputs, cycles, order'),
    Facet('solvers', solvings, run_solving, 300, rule='states, or solvers that cannot solve the model'),
    Facet('nesting', nestings, run_nesting, 400, rule='a loop or a state in nested groups'),
    Facet('issues', issues, run_issues, 200, rule='all'),
]
