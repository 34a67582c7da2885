"""Random OpenMDAO models with an independent NumPy reference.

``gen_model`` draws a plain-JSON description of a model.  ``Model`` interprets
the description twice: ``build`` assembles the OpenMDAO problem, and the
``ref_*`` methods compute values and exact total derivatives from the flat
component list and the connection list alone, never looking at OpenMDAO (no
groups, promotion, ordering, vectors or solvers are involved).

Description:
 comps: list in a topological order of the feed-forward connections;
   kind  indep | lin | mf | fd | cs | exec | impl | implmf
   outs  [{n: name, s: shape (0 = scalar), u: unit or null, state: bool}]
   ins   [{n, s, u, src: [comp, out] | null, idx: flat source indices | null,
           via: 'imp'|'exp'|'chain'|'none', lvl, link, val, noshape}]
   seed  integer the coefficients are derived from
 tree:  nested {name, kids: [...], kind, ...}; a kid is an integer (component)
        or another group
"""
import fnmatch
import math

import numpy as np

from hypothesis import strategies as st

# ----------------------------------------------------------------- units

UNITS = {                      # value_SI = factor * (value + offset)
    'm': (1.0, 0.0), 'ft': (0.3048, 0.0), 'cm': (0.01, 0.0), 'inch': (0.0254, 0.0),
    'km': (1000.0, 0.0),
    'degK': (1.0, 0.0), 'degC': (1.0, 273.15), 'degF': (5.0 / 9.0, 459.67), 'degR': (5.0 / 9.0, 0.0),
    'kg': (1.0, 0.0), 'g': (0.001, 0.0),
    's': (1.0, 0.0), 'min': (60.0, 0.0), 'h': (3600.0, 0.0),
}
FAMILIES = [['m', 'ft', 'cm', 'inch', 'km'], ['degK', 'degC', 'degF', 'degR'], ['kg', 'g'], ['s', 'min', 'h']]
MILD = [['m', 'ft'], ['degK', 'degC', 'degF', 'degR'], ['kg'], ['s', 'min']]   # modest conversion factors
FAMILY = dict((u, i) for i, f in enumerate(FAMILIES) for u in f)


def conv(src, tgt):
    """(scale, shift): v_tgt = scale * v_src + shift."""
    if src is None or tgt is None:
        return 1.0, 0.0
    fs, os_ = UNITS[src]
    ft, ot = UNITS[tgt]
    return fs / ft, fs * os_ / ft - ot


def nsize(shape):
    return 1 if shape == 0 else int(np.prod(shape))


def full(shape, vals):
    """A value in the form OpenMDAO wants: float for scalars, else ndarray."""
    if shape == 0:
        return float(np.ravel(vals)[0])
    return np.array(vals, dtype=float).reshape(shape)


# ----------------------------------------------------------------- names

_SUF = ['', '1', '10', '_1', 'x', '11', '_10']
SYS_NAMES = [b + s for b in ('a', 'ab', 'b', 'cc', 'sub') for s in _SUF]
VAR_NAMES = [b + s for b in ('p', 'pq', 'q', 'w', 'v') for s in _SUF + [':a', ':ab']]


def _name(pool, k, mult, off):
    if k < len(pool):
        return pool[(k * mult + off) % len(pool)]
    return '%s_n%d' % (pool[(k * mult + off) % len(pool)], k)


# ----------------------------------------------------------------- coefficients

def coef(seed, tag, k, j):
    v = ((seed * 31 + tag * 101 + k * 17 + j * 7 + k * j * 5) % 13 - 6) / 8.0
    return v if v else 0.5


def coefmat(seed, tag, rows, cols):
    return np.array([[coef(seed, tag, k, j) for j in range(cols)] for k in range(rows)]).reshape(rows, cols)


# ----------------------------------------------------------------- generator

VALS = st.integers(-16, 16).map(lambda i: i / 8.0)


@st.composite
def shapes(draw):
    k = draw(st.integers(0, 9))
    if k < 4:
        return 0
    if k < 8:
        return [draw(st.sampled_from([1, 2, 2, 3, 3, 4, 6]))]
    if k < 9:
        return [draw(st.integers(1, 3)), draw(st.integers(1, 3))]
    return [2, 1, 2]


@st.composite
def gen_model(draw, max_comps=6, kinds=('lin', 'mf', 'exec'), impl=0, units=True, idx=True,
              cyclic=False, scatter=False, dangling=True, chain=True, groupkinds=True,
              max_depth=3, noshape=True, min_comps=2, orders=True, mild=False):
    """mild: modest unit factors and residual scalers, so that Krylov solvers can
    be expected to converge to full accuracy.
    impl: chance (percent) that a component is implicit.
    cyclic: add feedback connections.  scatter: components are placed in the
    tree without regard to dependencies (so groups may depend on each other
    both ways)."""
    nm = draw(st.integers(min_comps, max_comps))
    mult = draw(st.sampled_from([1, 2, 4, 11, 13]))
    off = draw(st.integers(0, 30))
    names = dict(s=0, v=0)

    def sysname():
        names['s'] += 1
        return _name(SYS_NAMES, names['s'] - 1, mult, off)

    def varname():
        names['v'] += 1
        return _name(VAR_NAMES, names['v'] - 1, mult, off)

    fams = MILD if mild else FAMILIES

    def unit():
        if not units or draw(st.integers(0, 2)) == 0:
            return None
        return draw(st.sampled_from(draw(st.sampled_from(fams))))

    unit.families = fams

    comps = []
    avail = []                         # (ci, oi)
    for ci in range(nm):
        if ci == 0 or draw(st.integers(0, 5)) == 0:
            kind = 'indep'
        elif impl and draw(st.integers(0, 99)) < impl:
            kind = draw(st.sampled_from(['impl', 'implmf']))
        else:
            kind = draw(st.sampled_from(list(kinds)))
        c = dict(name=sysname(), kind=kind, outs=[], ins=[], seed=draw(st.integers(0, 60)))
        if kind == 'indep':
            for _ in range(draw(st.integers(1, 3))):
                s = draw(shapes())
                c['outs'].append(dict(n=varname(), s=s, u=unit(),
                                      val=draw(st.lists(VALS, min_size=nsize(s), max_size=nsize(s)))))
        else:
            for _ in range(draw(st.integers(1, 3))):
                c['ins'].append(_draw_in(draw, comps, avail, varname, unit, idx, dangling, noshape,
                                         kind != 'exec'))
            if kind == 'exec':
                # elementwise expressions: one shared output shape
                s = draw(shapes())
                nout = draw(st.integers(1, 2))
                for _ in range(nout):
                    c['outs'].append(dict(n=varname(), s=s, u=unit()))
            else:
                for k in range(draw(st.integers(1, 2))):
                    c['outs'].append(dict(n=varname(), s=draw(shapes()), u=unit()))
                if kind.startswith('impl'):
                    c['outs'][0]['state'] = True
                    c['outs'][0]['u'] = None
                    if draw(st.integers(0, 3)) == 0:
                        c['outs'][0]['rs'] = draw(st.sampled_from([0.5, 2.0, 5.0] if mild else [0.01, 0.5, 10.0, 1000.0]))
        comps.append(c)
        avail.extend((ci, oi) for oi in range(len(c['outs'])))

    if cyclic:
        # feedback: re-point some inputs of non-indep components at later outputs
        cand = [(ci, ii) for ci, c in enumerate(comps) for ii in range(len(c['ins']))]
        later = [(ci, oi) for ci, c in enumerate(comps) if c['kind'] != 'indep'
                 for oi in range(len(c['outs']))]
        if cand and later:
            for _ in range(draw(st.integers(1, 3))):
                ci, ii = draw(st.sampled_from(cand))
                # components that (so far) depend on ci close a cycle
                desc, grow = {ci}, True
                while grow:
                    new = set(cj for cj, c in enumerate(comps)
                              for p in c['ins'] if p['src'] and p['src'][0] in desc) - desc
                    grow = bool(new)
                    desc |= new
                opts = [o for o in later if o[0] in desc and o[0] != ci]
                if not opts:
                    opts = [o for o in later if o[0] > ci]
                if not opts:
                    continue
                src = list(draw(st.sampled_from(opts)))
                _repoint(comps, ci, ii, src)
    # share of the contraction factor
    gain = 0.25 if cyclic else 1.0

    # placement
    order = list(range(nm))
    if scatter:
        order = draw(st.permutations(order))

    def group(items, depth):
        node = dict(name=sysname(), kids=[], kind='Group')
        i = 0
        while i < len(items):
            if depth >= max_depth:
                node['kids'].append(items[i])
                i += 1
                continue
            w = draw(st.integers(0, min(3, len(items) - i)))
            if w == 0:
                node['kids'].append(items[i])
                i += 1
            else:
                node['kids'].append(group(items[i:i + w], depth + 1))
                i += w
        if len(node['kids']) > 1:
            node['add'] = draw(st.permutations(list(range(len(node['kids'])))))
        else:
            node['add'] = [0]
        return node

    tree = group(order, 0)
    tree['name'] = ''

    # how connections are made
    for c in comps:
        seen = set()
        for p in c['ins']:
            if p['src'] is None:
                p['via'] = 'none'
                continue
            key = tuple(p['src'])
            k = draw(st.integers(0, 9))
            if k < 4 and key not in seen and not (p.get('exec') and p['idx'] is not None):
                p['via'] = 'imp'
                p['n'] = comps[key[0]]['outs'][key[1]]['n']
                seen.add(key)
            elif k < 9 or not chain:
                p['via'] = 'exp'
                p['lvl'] = draw(st.integers(0, 3))
            else:
                p['via'] = 'chain'
                p['lvl'] = draw(st.integers(0, 3))
            if p['idx'] is not None:
                # where the indices are declared: on the parameter or at the connection
                p['on'] = 'param' if (p['via'] == 'imp' or
                                      (not p.get('exec') and draw(st.booleans()))) else 'conn'
    # promotion: per node a mode and a bit mask
    def promo(node):
        node['pm'] = [draw(st.integers(0, 3)), draw(st.integers(0, 255)),]
        node['kp'] = []
        for kid in node['kids']:
            if isinstance(kid, dict):
                promo(kid)
                node['kp'].append(None)
            else:
                node['kp'].append([draw(st.integers(0, 3)), draw(st.integers(0, 255))])
    promo(tree)
    if groupkinds:
        def gk(node, top=True):
            node['kind'] = draw(st.sampled_from(['Group'] * 4 + ['ParallelGroup']))
            for kid in node['kids']:
                if isinstance(kid, dict):
                    gk(kid, False)
        gk(tree)
    return dict(comps=comps, tree=tree, gain=gain, cyclic=bool(cyclic), scatter=bool(scatter))


def _draw_in(draw, comps, avail, varname, unit, idx, dangling, noshape, multi):
    if dangling and draw(st.integers(0, 11)) == 0 or not avail:
        s = draw(shapes())
        return dict(n=varname(), s=s, u=unit(), src=None, idx=None,
                    val=draw(st.lists(VALS, min_size=nsize(s), max_size=nsize(s))))
    ci, oi = draw(st.sampled_from(avail))
    o = comps[ci]['outs'][oi]
    u = o['u']
    if u is None:
        pu = unit() if draw(st.integers(0, 3)) == 0 else None
    else:
        k = draw(st.integers(0, 4))
        pu = None if k == 0 else draw(st.sampled_from(unit.families[FAMILY[u]]))
    p = dict(n=varname(), u=pu, src=[ci, oi], idx=None, s=o['s'])
    if not multi:
        p['exec'] = True
    sz = nsize(o['s'])
    if idx and o['s'] != 0 and draw(st.integers(0, 1)):
        if draw(st.integers(0, 2)) == 0:
            start = draw(st.integers(0, sz - 1))
            p['idx'] = list(range(start, sz, draw(st.integers(1, 3))))
            if draw(st.integers(0, 4)) == 0:
                p['idx'].reverse()
            m = len(p['idx'])
        else:
            m = draw(st.integers(1, sz + 1))
            p['idx'] = draw(st.lists(st.integers(0, sz - 1), min_size=m, max_size=m))
        k = draw(st.integers(0, 3))
        if m == 1 and k == 0:
            p['s'] = 0
        elif m % 2 == 0 and k == 1:
            p['s'] = [2, m // 2]
        else:
            p['s'] = [m]
    if noshape and p['idx'] is None and multi and draw(st.integers(0, 7)) == 0:
        p['noshape'] = True
    return p


def _repoint(comps, ci, ii, src):
    """Point an input at another source, keeping the input's shape by src_indices."""
    p = comps[ci]['ins'][ii]
    o = comps[src[0]]['outs'][src[1]]
    p['src'] = src
    if comps[ci]['kind'] == 'exec':
        p['exec'] = True
    p.pop('noshape', None)
    p.pop('val', None)
    if p['u'] is not None and o['u'] is not None and FAMILY[p['u']] != FAMILY[o['u']]:
        p['u'] = o['u']
    if o['s'] == 0:
        p['s'] = 0
        p['idx'] = None
    else:
        m = nsize(p['s'])
        sz = nsize(o['s'])
        p['idx'] = [(k * 3 + 1) % sz for k in range(m)]
        if p['s'] == 0:
            p['s'] = [1]


# ----------------------------------------------------------------- interpretation

class Model(object):

    def __init__(self, spec):
        self.spec = spec
        self.comps = spec['comps']
        self.gain = spec.get('gain', 1.0)
        self._place()
        self._resolve_names()
        self._resolve_connections()
        self._math()

    def comp_of(self, prob, ci):
        sub = prob.root
        for part in self.comps[ci]['_path']:
            sub = sub.find_subsystem(part)
        return sub

    # -- structure ---------------------------------------------------------

    def _place(self):
        self.parent = {}            # comp index -> list of group nodes from root
        self.groups = []            # (node, path names tuple)

        def walk(node, path, nodes):
            node['_path'] = path
            self.groups.append(node)
            for kid in node['kids']:
                if isinstance(kid, dict):
                    walk(kid, path + (kid['name'],), nodes + [kid])
                else:
                    self.parent[kid] = nodes
        self.spec['tree']['_path'] = ()
        walk(self.spec['tree'], (), [self.spec['tree']])
        for ci, c in enumerate(self.comps):
            c['_path'] = tuple(n['name'] for n in self.parent[ci][1:]) + (c['name'],)

    def _lca_depth(self, ci, cj):
        """Depth (number of group names) of the deepest group containing both."""
        a = self.comps[ci]['_path'][:-1]
        b = self.comps[cj]['_path'][:-1]
        d = 0
        while d < len(a) and d < len(b) and a[d] == b[d]:
            d += 1
        return d

    def _resolve_names(self):
        """Decide, for every node, which of its visible names are promoted."""
        forced = {}                 # path -> set of names that must be promoted from it
        stop = {}                   # (path, name) that must NOT be promoted (none used)
        for ci, c in enumerate(self.comps):
            for p in c['ins']:
                if p['via'] == 'imp':
                    cj = p['src'][0]
                    d = self._lca_depth(ci, cj)
                    for who in (ci, cj):
                        path = self.comps[who]['_path']
                        for k in range(len(path), d, -1):
                            forced.setdefault(path[:k], set()).add(p['n'])
        self.promotes = {}          # path -> list of promoted names (exact)
        self.visible = {}           # path -> {local promoted name: set of (ci, 'o'/'i', k)}

        def decide(path, vis, mode, mask):
            names = sorted(vis)
            f = forced.get(path, set())
            if mode == 0:
                out = [n for n in names if n in f]
            elif mode == 1:
                out = names
            else:
                out = [n for k, n in enumerate(names) if n in f or (mask >> (k % 8)) & 1]
            # only names that are still "simple" can be promoted further; a
            # name that was not promoted below looks like child.var
            self.promotes[path] = out
            return out

        def walk(node):
            vis = {}
            for kid, kp in zip(node['kids'], node['kp']):
                if isinstance(kid, dict):
                    kvis = walk(kid)
                    path = kid['_path']
                    mode, mask = kid['pm']
                    label = kid['name']
                else:
                    c = self.comps[kid]
                    kvis = {}
                    for k, o in enumerate(c['outs']):
                        kvis.setdefault(o['n'], set()).add((kid, 'o', k))
                    for k, p in enumerate(c['ins']):
                        kvis.setdefault(p['n'], set()).add((kid, 'i', k))
                    path = c['_path']
                    mode, mask = kp
                    label = c['name']
                simple = dict((n, s) for n, s in kvis.items() if '.' not in n)
                prom = decide(path, simple, mode, mask)
                for n, s in kvis.items():
                    up = n if n in prom else label + '.' + n
                    vis.setdefault(up, set()).update(s)
            self.visible[node['_path']] = vis
            return vis
        walk(self.spec['tree'])
        self.prom_at = {}           # (group path, var key) -> promoted name there
        for gpath, vis in self.visible.items():
            for n, keys in vis.items():
                for key in keys:
                    self.prom_at[(gpath, key)] = n

    def _resolve_connections(self):
        """Explicit connect() calls: (group path, source name, target name, idx)."""
        self.connects = []
        for ci, c in enumerate(self.comps):
            for k, p in enumerate(c['ins']):
                if p['via'] not in ('exp', 'chain'):
                    continue
                cj, oj = p['src']
                src_key = (cj, 'o', oj)
                idx = p['idx'] if p.get('on') == 'conn' else None
                if p['via'] == 'chain':
                    via = self._chain_partner(ci, k)
                    if via is not None:
                        d = self._lca_depth(ci, via[0])
                        gpath = c['_path'][:min(d, p.get('lvl', 0))]
                        self.connects.append((gpath, self.prom_at[(gpath, via)],
                                              self.prom_at[(gpath, (ci, 'i', k))], idx))
                        continue
                d = self._lca_depth(ci, cj)
                gpath = c['_path'][:min(d, p.get('lvl', 0))]
                self.connects.append((gpath, self.prom_at[(gpath, src_key)],
                                      self.prom_at[(gpath, (ci, 'i', k))], idx))

    def _chain_partner(self, ci, k):
        """Another input of the same source, taking all of it, connected directly."""
        p = self.comps[ci]['ins'][k]
        for cj, c in enumerate(self.comps):
            for kk, q in enumerate(c['ins']):
                if (cj, kk) != (ci, k) and q['src'] == p['src'] and q['idx'] is None \
                        and q['via'] in ('exp', 'imp') and q['s'] == self.out(p['src'])['s']:
                    return (cj, 'i', kk)
        return None

    def out(self, src):
        return self.comps[src[0]]['outs'][src[1]]

    def root_name(self, key):
        return self.prom_at[((), key)]

    def abs_name(self, key):
        ci, t, k = key
        c = self.comps[ci]
        n = (c['outs'] if t == 'o' else c['ins'])[k]['n']
        return '.'.join(c['_path'] + (n,))

    # -- mathematics -------------------------------------------------------

    def _math(self):
        self.off = {}
        n = 0
        for ci, c in enumerate(self.comps):
            for oi, o in enumerate(c['outs']):
                self.off[(ci, oi)] = (n, n + nsize(o['s']))
                n += nsize(o['s'])
        self.n = n
        for ci, c in enumerate(self.comps):
            for p in c['ins']:
                # weight that makes coefficients act on SI-sized changes
                if p['src'] is None:
                    p['_f'] = UNITS[p['u']][0] if p['u'] else 1.0
                else:
                    su = self.out(p['src'])['u']
                    p['_f'] = (UNITS[su][0] if su else 1.0) / conv(su, p['u'])[0]
            c['_gain'] = self.gain
            if c['kind'] != 'indep':
                c['_m'] = CompMath(c, self.gain)

    def input_defaults(self):
        vals = {}
        for ci, c in enumerate(self.comps):
            if c['kind'] == 'indep':
                for oi, o in enumerate(c['outs']):
                    vals[(ci, 'o', oi)] = np.array(o['val'], dtype=float)
            for k, p in enumerate(c['ins']):
                if p['src'] is None:
                    vals[(ci, 'i', k)] = np.array(p['val'], dtype=float)
        return vals

    def ref_param(self, ci, k, U, inputs):
        p = self.comps[ci]['ins'][k]
        if p['src'] is None:
            return inputs[(ci, 'i', k)]
        a, b = self.off[tuple(p['src'])]
        v = U[a:b]
        if p['idx'] is not None:
            v = v[np.array(p['idx'])]
        s, t = conv(self.out(p['src'])['u'], p['u'])
        return s * v + t

    def ref_X(self, ci, U, inputs):
        c = self.comps[ci]
        return np.concatenate([self.ref_param(ci, k, U, inputs) for k in range(len(c['ins']))])

    def ref_sweep(self, U, inputs):
        for ci, c in enumerate(self.comps):
            if c['kind'] == 'indep':
                for oi in range(len(c['outs'])):
                    a, b = self.off[(ci, oi)]
                    U[a:b] = inputs[(ci, 'o', oi)]
            else:
                X = self.ref_X(ci, U, inputs)
                for oi, y in enumerate(c['_m'].solve(X)):
                    a, b = self.off[(ci, oi)]
                    U[a:b] = y
        return U

    def ref_values(self, inputs=None):
        inputs = inputs or self.input_defaults()
        U = self.ref_sweep(np.zeros(self.n), inputs)
        if self.spec.get('cyclic'):
            for _ in range(2000):
                old = U.copy()
                U = self.ref_sweep(U, inputs)
                if np.max(np.abs(U - old) / (1.0 + np.abs(U))) < 1e-15:
                    break
        return U

    def ref_jacobian(self, U, inputs=None):
        """dR/dU of the whole flat system (explicit residual: new - old)."""
        inputs = inputs or self.input_defaults()
        J = np.zeros((self.n, self.n))
        for ci, c in enumerate(self.comps):
            if c['kind'] == 'indep':
                for oi in range(len(c['outs'])):
                    a, b = self.off[(ci, oi)]
                    J[a:b, a:b] = -np.eye(b - a)
                continue
            X = self.ref_X(ci, U, inputs)
            Y = [U[slice(*self.off[(ci, oi)])] for oi in range(len(c['outs']))]
            dX, dZ = c['_m'].partials(X, Y)
            for oi in range(len(c['outs'])):
                a, b = self.off[(ci, oi)]
                if not c['_m'].is_state(oi):
                    J[a:b, a:b] -= np.eye(b - a)
                if dZ[oi] is not None:
                    za, zb = self.off[(ci, 0)]
                    J[a:b, za:zb] += dZ[oi]
                col = 0
                for k, p in enumerate(c['ins']):
                    w = nsize(p['s'])
                    blk = dX[oi][:, col:col + w]
                    col += w
                    if p['src'] is None:
                        continue
                    sa, sb = self.off[tuple(p['src'])]
                    sc, _ = conv(self.out(p['src'])['u'], p['u'])
                    cols = np.arange(sa, sb) if p['idx'] is None else sa + np.array(p['idx'])
                    for j, cj in enumerate(cols):
                        J[a:b, cj] += sc * blk[:, j]
        return J

    def ref_totals(self, U, inputs=None):
        """dU/dU_indep: full (n x n) matrix; column j is the response of every
        unknown to a unit change in unknown j's own residual (for independent
        outputs: to a unit change of that input)."""
        return np.linalg.inv(-self.ref_jacobian(U, inputs))

    # -- helpers for checks --------------------------------------------------

    def unknown_keys(self):
        return [(ci, 'o', oi) for ci, c in enumerate(self.comps) for oi in range(len(c['outs']))]

    def param_keys(self):
        return [(ci, 'i', k) for ci, c in enumerate(self.comps) for k in range(len(c['ins']))]

    def indep_keys(self):
        return [(ci, 'o', oi) for ci, c in enumerate(self.comps) if c['kind'] == 'indep'
                for oi in range(len(c['outs']))]

    def has_implicit(self):
        return any(c['kind'].startswith('impl') for c in self.comps)

    def dangling_keys(self):
        return [k for k in self.param_keys() if self.comps[k[0]]['ins'][k[2]]['src'] is None]

    def uval(self, key, U):
        a, b = self.off[(key[0], key[2])]
        s = self.comps[key[0]]['outs'][key[2]]['s']
        return U[a:b][0] if s == 0 else U[a:b].reshape(s)

    def needs_iteration(self, node):
        """True if the children of the group depend on each other in a cycle."""
        where = {}
        for j, kid in enumerate(node['kids']):
            for ci in self._members(kid):
                where[ci] = j
        deps = dict((j, set()) for j in range(len(node['kids'])))
        for ci in where:
            for p in self.comps[ci]['ins']:
                if p['src'] is not None and p['src'][0] in where and where[p['src'][0]] != where[ci]:
                    deps[where[ci]].add(where[p['src'][0]])
        done = set()
        while True:
            ready = [j for j in deps if j not in done and deps[j] <= done]
            if not ready:
                return len(done) < len(deps)
            done.update(ready)

    def crosses(self, node):
        """True if two different children of the group exchange data."""
        where = {}
        for j, kid in enumerate(node['kids']):
            for ci in self._members(kid):
                where[ci] = j
        for ci in where:
            for p in self.comps[ci]['ins']:
                if p['src'] is not None and p['src'][0] in where and where[p['src'][0]] != where[ci]:
                    return True
        return False

    def _members(self, kid):
        if isinstance(kid, dict):
            out = []
            for k in kid['kids']:
                out.extend(self._members(k))
            return out
        return [kid]

    def acyclic_tree(self):
        """True if no group has mutually dependent children (feed-forward)."""
        return not self.spec.get('cyclic') and not self.spec.get('scatter')

    # -- OpenMDAO side -------------------------------------------------------

    def build_root(self, configure=None, comp_factory=None, log=None):
        from openmdao.api import Group, ParallelGroup
        connects = {}
        for gpath, s, t, idx in self.connects:
            connects.setdefault(gpath, []).append((s, t, idx))

        def make(node):
            kind = node.get('kind', 'Group')
            if kind == 'ParallelGroup' and (self.crosses(node) or node['_path'] == ()):
                kind = 'Group'
            node['_kind'] = kind
            g = ParallelGroup() if kind == 'ParallelGroup' else Group()
            for j in node['add']:
                kid = node['kids'][j]
                if isinstance(kid, dict):
                    sub, name, path = make(kid), kid['name'], kid['_path']
                else:
                    c = self.comps[kid]
                    sub = (comp_factory or make_comp)(self, kid, log)
                    name, path = c['name'], c['_path']
                prom = self.promotes[path]
                g.add(name, sub, promotes=self._prom_arg(path, prom) if prom else None)
            for s, t, idx in connects.get(node['_path'], ()):
                if idx is None:
                    g.connect(s, t)
                else:
                    g.connect(s, t, src_indices=list(idx))
            if configure:
                configure(node, g)
            return g
        return make(self.spec['tree'])

    def _prom_arg(self, path, prom):
        """Sometimes spell the promoted names as patterns that match exactly them."""
        # the names visible below that path
        if path in self.visible:
            names = [n for n in self.visible[path]]
        else:
            names = []
            for ci, c in enumerate(self.comps):
                if c['_path'] == path:
                    names = [o['n'] for o in c['outs']] + [p['n'] for p in c['ins']]
        simple = [n for n in names if '.' not in n]
        if set(prom) == set(simple) and len(prom) == len(set(names)):
            return ['*']
        pats = []
        for n in prom:
            pat = n[:-1] + '?'
            if len(n) > 1 and set(fnmatch.filter(names, pat)) <= set(prom):
                pats.append(pat)
            else:
                pats.append(n)
        return pats

    def build(self, configure=None, impl=None, driver=None, setup=True, comp_factory=None, log=None,
              problem_hook=None):
        from openmdao.api import Problem
        kw = {}
        if impl is not None:
            kw['impl'] = impl
        if driver is not None:
            kw['driver'] = driver
        prob = Problem(root=self.build_root(configure, comp_factory, log), **kw)
        if problem_hook:
            problem_hook(prob)
        if setup:
            prob.setup(check=False)
        return prob

    def set_inputs(self, prob, inputs):
        for key, v in sorted(inputs.items()):
            ci, t, k = key
            c = self.comps[ci]
            s = (c['outs'] if t == 'o' else c['ins'])[k]['s']
            prob[self.root_name(key)] = full(s, v)

    def check_values(self, prob, U, inputs, rtol=1e-9, atol=1e-9, what='', params=True):
        from pbt.core import check_close
        for key in self.unknown_keys():
            o = self.comps[key[0]]['outs'][key[2]]
            check_close(prob[self.root_name(key)], self.uval(key, U),
                        '%svalue of %s' % (what, self.abs_name(key)), rtol, atol)
        for key in self.param_keys() if params else ():
            p = self.comps[key[0]]['ins'][key[2]]
            v = self.ref_param(key[0], key[2], U, inputs)
            v = v[0] if p['s'] == 0 else v.reshape(p['s'])
            check_close(self.comp_of(prob, key[0]).params[p['n']], v,
                        '%sinput %s' % (what, self.abs_name(key)), rtol, atol)


class CompMath(object):
    """y_o = c + A X + 0.25 sin(B X); a state solves 2 z + 0.5 sin z = that;
    the other outputs of an implicit component also see 0.5 * (D z)."""

    def __init__(self, c, gain):
        self.kind = c['kind']
        self.outs = c['outs']
        self.ins = c['ins']
        fin = np.concatenate([np.full(nsize(p['s']), p['_f']) for p in c['ins']])
        nx = len(fin)
        self.norm = norm = gain / max(1.0, nx / 3.0)
        self.A, self.B, self.c, self.D = [], [], [], []
        seed = c['seed']
        for oi, o in enumerate(c['outs']):
            m = nsize(o['s'])
            fo = UNITS[o['u']][0] if o['u'] else 1.0
            if self.kind == 'exec':
                a, b = self._exec_mats(seed, oi, o, c['ins'])
                self.A.append(a)
                self.B.append(b)
                self.c.append(np.full(m, coef(seed, 40 + oi, 1, 1)))
                self.D.append(None)
                continue
            A = coefmat(seed, 2 * oi, m, nx) * norm * fin / fo
            B = coefmat(seed, 2 * oi + 1, m, nx) * norm * fin
            self.A.append(A)
            self.B.append(B)
            self.c.append(np.array([coef(seed, 40 + oi, k, 0) for k in range(m)]))
            self.D.append(coefmat(seed, 60 + oi, m, nsize(c['outs'][0]['s'])) * 0.5 * gain
                          / max(1.0, nsize(c['outs'][0]['s']) / 3.0) / fo)
        self.sin = [0.25 / (UNITS[o['u']][0] if o['u'] else 1.0) *
                    (gain if self.kind == 'exec' else 1.0) for o in c['outs']]

    # exec components: y = c + sum_i a_i * x_i (or a_i * sum(x_i)) + 0.25*sin(b*x_0 or b*sum(x_0))
    def _exec_mats(self, seed, oi, o, ins):
        m = nsize(o['s'])
        As, Bs = [], []
        for i, p in enumerate(ins):
            w = nsize(p['s'])
            f = p['_f']
            a = exec_coef(seed, oi, i, f, self.norm, o)
            if p['s'] == o['s']:
                As.append(a * np.eye(m))
            else:
                As.append(a * np.ones((m, w)))
            b = exec_bcoef(seed, oi, f, w)
            if i == 0:
                Bs.append(b * (np.eye(m) if p['s'] == o['s'] else np.ones((m, w))))
            else:
                Bs.append(np.zeros((m, w)))
        return np.hstack(As), np.hstack(Bs)

    def is_state(self, oi):
        return bool(self.outs[oi].get('state'))

    def g(self, oi, X):
        return self.c[oi] + self.A[oi].dot(X) + self.sin[oi] * np.sin(self.B[oi].dot(X))

    def dg(self, oi, X):
        return self.A[oi] + (self.sin[oi] * np.cos(self.B[oi].dot(X)))[:, None] * self.B[oi]

    def solve(self, X):
        ys = []
        z = None
        for oi in range(len(self.outs)):
            y = self.g(oi, X)
            if self.is_state(oi):
                y = z = solve_state(y)
            elif z is not None:
                y = y + self.D[oi].dot(z)
            ys.append(y)
        return ys

    def resid(self, X, Y):
        """Residuals (explicit: new - old)."""
        rs = []
        for oi in range(len(self.outs)):
            y = self.g(oi, X)
            if self.is_state(oi):
                r = 2.0 * Y[oi] + 0.5 * np.sin(Y[oi]) - y
            else:
                if self.is_state(0):
                    y = y + self.D[oi].dot(Y[0])
                r = y - Y[oi]
            rs.append(r)
        return rs

    def partials(self, X, Y):
        dX, dZ = [], []
        for oi in range(len(self.outs)):
            d = self.dg(oi, X)
            if self.is_state(oi):
                dX.append(-d)
                dZ.append(np.diag(2.0 + 0.5 * np.cos(Y[oi])))
            else:
                dX.append(d)
                dZ.append(self.D[oi] if self.is_state(0) else None)
        return dX, dZ


def exec_coef(seed, oi, i, f, norm, o):
    fo = UNITS[o['u']][0] if o['u'] else 1.0
    return coef(seed, 10 + oi, i, 3) * f / fo * norm


def exec_bcoef(seed, oi, f, w):
    # (ExecComp differentiates with a complex step of 1e-6: keep the curvature mild)
    return coef(seed, 20 + oi, 1, 2) * min(f, 1.0) / max(1.0, w / 2.0)


def solve_state(g):
    z = g / 2.0
    for _ in range(60):
        dz = (2.0 * z + 0.5 * np.sin(z) - g) / (2.0 + 0.5 * np.cos(z))
        z = z - dz
        if np.max(np.abs(dz)) <= 1e-16 * (1.0 + np.max(np.abs(z))):
            break
    return z


# ----------------------------------------------------------------- components

_CLASSES = {}


def classes():
    """OpenMDAO component classes, created on first use."""
    if _CLASSES:
        return _CLASSES
    from openmdao.api import Component

    class GenComp(Component):
        def __init__(self, c, log=None):
            super(GenComp, self).__init__()
            self.c = c
            self.m = c['_m']
            self.log = log
            for p in c['ins']:
                kw = {}
                if p['u']:
                    kw['units'] = p['u']
                if p['idx'] is not None and p.get('on') == 'param':
                    kw['src_indices'] = list(p['idx'])
                if p.get('noshape'):
                    self.add_param(p['n'], **kw)
                elif p['src'] is None:
                    self.add_param(p['n'], full(p['s'], p['val']), **kw)
                elif c['seed'] % 3 == 0 and p['s'] != 0:
                    self.add_param(p['n'], shape=tuple(p['s']), **kw)
                else:
                    self.add_param(p['n'], full(p['s'], np.zeros(nsize(p['s']))), **kw)
            for o in c['outs']:
                kw = {}
                if o['u']:
                    kw['units'] = o['u']
                if o.get('rs'):
                    kw['resid_scaler'] = o['rs']
                kw.update(o.get('meta', {}))
                add = self.add_state if o.get('state') else self.add_output
                v0 = o.get('start')
                add(o['n'], full(o['s'], v0 if v0 is not None else np.zeros(nsize(o['s']))), **kw)
            if c['kind'] == 'fd':
                self.deriv_options['type'] = 'fd'
                self.deriv_options['form'] = 'central'
                self.deriv_options['step_size'] = 1e-5
            elif c['kind'] == 'cs':
                self.deriv_options['type'] = 'cs'
                self.deriv_options['step_size'] = 1e-20

        def X(self, params):
            return np.concatenate([np.ravel(params[p['n']]) for p in self.c['ins']])

        def Y(self, unknowns):
            return [np.ravel(unknowns[o['n']]) for o in self.c['outs']]

        def put(self, vec, oi, val):
            o = self.c['outs'][oi]
            vec[o['n']] = val[0] if o['s'] == 0 else np.array(val).reshape(o['s'])

        def solve_nonlinear(self, params, unknowns, resids):
            if self.log is not None:
                self.log.append(self.pathname)
            for oi, y in enumerate(self.m.solve(self.X(params))):
                self.put(unknowns, oi, y)

        def jac(self, params, unknowns):
            dX, dZ = self.m.partials(self.X(params), self.Y(unknowns))
            J = {}
            for oi, o in enumerate(self.c['outs']):
                col = 0
                for p in self.c['ins']:
                    w = nsize(p['s'])
                    J[o['n'], p['n']] = dX[oi][:, col:col + w].copy()
                    col += w
                if dZ[oi] is not None:
                    J[o['n'], self.c['outs'][0]['n']] = np.array(dZ[oi])
            for key, r, k, delta in self.c.get('_plant') or ():
                J[key][r, k] += delta
            return J

        def linearize(self, params, unknowns, resids):
            J = self.jac(params, unknowns)
            if self.c['seed'] % 3 == 0:
                # filled into the arrays that OpenMDAO provides, with entries for pairs without derivative
                A = self.alloc_jacobian()
                for key in A:
                    A[key][:] = J.pop(key, 0.0)
                if J:
                    raise AssertionError('alloc_jacobian of %s gives %s, without %s' % (self.pathname, sorted(A), sorted(J)))
                return A
            for key in J:
                if J[key].shape == (1, 1) and self.c['seed'] % 2:
                    J[key] = float(J[key][0, 0])
            return J

    class MFComp(GenComp):
        """Matrix-free: apply_linear instead of a Jacobian dictionary."""

        def linearize(self, params, unknowns, resids):
            self.J = self.jac(params, unknowns)

        def apply_linear(self, params, unknowns, dparams, dunknowns, dresids, mode):
            for (o, p), J in self.J.items():
                if o not in dresids:
                    continue
                for key, r, k, delta in self.c.get('_plant_' + mode) or ():
                    if key == (o, p):
                        J = J.copy()
                        J[r, k] += delta
                if p in dparams:
                    vec = dparams
                elif p in dunknowns and p == self.c['outs'][0]['n'] and self.c['outs'][0].get('state'):
                    vec = dunknowns
                else:
                    continue
                if mode == 'fwd':
                    dresids[o] += J.dot(np.ravel(vec[p])).reshape(np.shape(dresids[o])) \
                        if np.shape(dresids[o]) else J.dot(np.ravel(vec[p]))[0]
                else:
                    r = J.T.dot(np.ravel(dresids[o]))
                    vec[p] += r.reshape(np.shape(vec[p])) if np.shape(vec[p]) else r[0]

    class ImplMixin(object):
        def apply_nonlinear(self, params, unknowns, resids):
            for oi, r in enumerate(self.m.resid(self.X(params), self.Y(unknowns))):
                self.put(resids, oi, r)

        def solve_linear(self, dumat, drmat, vois, mode=None):
            """Exact local inverse (used by linear Gauss-Seidel)."""
            J = self.jac(self.params, self.unknowns)
            zn = self.c['outs'][0]['n']
            Jz = J[zn, zn] / (self.c['outs'][0].get('rs') or 1.0)
            fwd = mode == 'fwd'
            for voi in vois:
                sol, rhs = (self.dumat, self.drmat) if fwd else (self.drmat, self.dumat)
                sol, rhs = sol[voi], rhs[voi]
                rest = [o['n'] for o in self.c['outs'][1:]]
                # relevance reduction may have dropped some of these variables
                rest = [n for n in rest if n in sol and n in rhs]
                if zn not in sol or zn not in rhs:
                    for n in rest:
                        s = -np.ravel(rhs[n])
                        sol[n] = s.reshape(np.shape(sol[n])) if np.shape(sol[n]) else s[0]
                    continue
                if fwd:
                    z = np.linalg.solve(Jz, np.ravel(rhs[zn]))
                    sol[zn] = z.reshape(np.shape(sol[zn])) if np.shape(sol[zn]) else z[0]
                    for n in rest:
                        if n in rhs:
                            v = J[n, zn].dot(z) - np.ravel(rhs[n])
                            sol[n] = v.reshape(np.shape(sol[n])) if np.shape(sol[n]) else v[0]
                else:
                    acc = np.ravel(rhs[zn]).copy()
                    for n in rest:
                        if n in rhs:
                            s = -np.ravel(rhs[n])
                            sol[n] = s.reshape(np.shape(sol[n])) if np.shape(sol[n]) else s[0]
                            acc -= J[n, zn].T.dot(s)
                    z = np.linalg.solve(Jz.T, acc)
                    sol[zn] = z.reshape(np.shape(sol[zn])) if np.shape(sol[zn]) else z[0]

    class ImplComp(ImplMixin, GenComp):
        pass

    class ImplMFComp(ImplMixin, MFComp):
        pass

    _CLASSES.update(lin=GenComp, fd=GenComp, cs=GenComp, mf=MFComp, impl=ImplComp, implmf=ImplMFComp)
    return _CLASSES


def exec_expr(c):
    exprs = []
    for oi, o in enumerate(c['outs']):
        fo = UNITS[o['u']][0] if o['u'] else 1.0
        terms = [repr(coef(c['seed'], 40 + oi, 1, 1))]
        if o['s'] != 0 and not any(p['s'] == o['s'] for p in c['ins']):
            terms = ['%r*numpy.ones(%r)' % (coef(c['seed'], 40 + oi, 1, 1), tuple(o['s']))]
        for i, p in enumerate(c['ins']):
            f = p['_f']
            a = exec_coef(c['seed'], oi, i, f, c['_m'].norm, o)
            x = p['n'] if p['s'] == o['s'] or p['s'] == 0 else 'numpy.sum(%s)' % p['n']
            terms.append('%r*%s' % (a, x))
            if i == 0:
                b = exec_bcoef(c['seed'], oi, f, nsize(p['s']))
                terms.append('%r*sin(%r*%s)' % (0.25 / fo * c['_gain'], b, x))
        exprs.append('%s = %s' % (o['n'], ' + '.join(terms)))
    return exprs


def make_comp(model, ci, log=None):
    from openmdao.api import IndepVarComp, ExecComp
    c = model.comps[ci]
    if c['kind'] == 'indep':
        items = []
        for o in c['outs']:
            kw = {}
            if o['u']:
                kw['units'] = o['u']
            items.append((o['n'], full(o['s'], o['val']), kw))
        if len(items) == 1:
            return IndepVarComp(items[0][0], items[0][1], **items[0][2])
        return IndepVarComp(items)
    if c['kind'] == 'exec':
        class LoggedExec(ExecComp):
            def solve_nonlinear(self, params, unknowns, resids):
                if log is not None:
                    log.append(self.pathname)
                super(LoggedExec, self).solve_nonlinear(params, unknowns, resids)
        kw = {}
        units = {}
        for v in c['ins'] + c['outs']:
            kw[v['n']] = full(v['s'], v.get('val', np.zeros(nsize(v['s']))))
            if v['u']:
                units[v['n']] = v['u']
        if units:
            kw['units'] = units
        return LoggedExec(exec_expr(c), **kw)
    return classes()[c['kind']](c, log)
