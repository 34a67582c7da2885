"""C05 automatic execution order respects data dependencies."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Facet, check

ASSUMPTIONS = ['serial execution (no MPI)', 'groups run their children once per run (RunOnce), so the order of '
               'solve_nonlinear calls is the execution order']

GNAMES = ['g', 'g1', 'ga', '', '0', '00', '000']
NAMES = ['a', 'b', 'ab', 'a1', 'a10', 'a_1', 'z', 'y2', 'B', 'sub', 'sub1', 'x', 'c', 'd', 'e']


@st.composite
def graphs(draw, nmax=9):
    """Components 0..n-1 (in a hidden rank order), a random tree, edges."""
    n = draw(st.integers(2, 3)) if draw(st.integers(0, 9)) == 0 else draw(st.integers(4, nmax))
    contiguous = draw(st.booleans())
    # tree: recursive partition
    items = list(range(n)) if contiguous else list(draw(st.permutations(range(n))))
    count = [0]

    def tree(items, depth):
        if depth >= 3 or len(items) < 2:
            kids = list(items)
        else:
            cuts = sorted(set(draw(st.lists(st.integers(1, len(items) - 1), max_size=3))))
            parts, a = [], 0
            for b in cuts + [len(items)]:
                parts.append(items[a:b])
                a = b
            kids = []
            for part in parts:
                if draw(st.booleans()) and (len(part) < len(items) or depth < 1):
                    kids.append(tree(part, depth + 1))
                else:
                    kids.extend(part)
        kids = list(kids)
        order = draw(st.permutations(range(len(kids))))
        count[0] += 1
        return dict(kids=[kids[j] for j in order],
                    user=draw(st.sampled_from([0, 0, 0, 0, 1, 2])),
                    seed=draw(st.integers(0, 1000)), n=draw(st.integers(0, 14)))
    t = tree(items, 0)
    edges = [list(e) for e in draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)),
                                            min_size=n - 1, max_size=2 * n)) if e[0] != e[1]]
    cyc = draw(st.integers(0, 3))
    if cyc != 0:
        edges = [[min(e), max(e)] for e in edges]
    elif edges:
        # mostly forward edges, a few backward ones
        edges = [[min(e), max(e)] if i % 3 else e for i, e in enumerate(edges)]
    if cyc == 0 and draw(st.booleans()):
        # several separate, strongly coupled loops of neighbours
        lo, loops = 0, []
        while lo < n - 1:
            hi = min(n, lo + draw(st.integers(2, 4)))
            ring = list(range(lo, hi))
            loops += [[ring[k - 1], ring[k]] for k in range(len(ring))]
            if draw(st.booleans()):
                loops += [[ring[k], ring[k - 1]] for k in range(len(ring)) if len(ring) > 2]
            lo = hi
        edges = [[min(e), max(e)] for e in edges][:n] + loops
        if draw(st.booleans()):
            t = dict(kids=[int(x) for x in draw(st.permutations(range(n)))], user=0, seed=t['seed'], n=t['n'])
    return dict(n=n, tree=t, edges=edges, at=draw(st.integers(0, 3)), size=draw(st.integers(1, 3)),
                pbo=draw(st.integers(0, 255)), names=draw(st.integers(0, 14)), resetup=draw(st.booleans()),
                extra=draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)).map(list), max_size=2)),
                addcomp=draw(st.booleans()))


def comp_class():
    from openmdao.api import Component

    class Node(Component):
        def __init__(self, ci, ins, log, size):
            super(Node, self).__init__()
            self.ci, self.ins, self.log = ci, ins, log
            for j, pbo in ins:
                if pbo:
                    self.add_param('i%d' % j, 0, pass_by_obj=True)
                else:
                    self.add_param('i%d' % j, np.zeros(size))

            self.add_output('y', np.zeros(size))
            self.add_output('o', 0, pass_by_obj=True)

        def solve_nonlinear(self, params, unknowns, resids):
            self.log.append(self.ci)
            s = 1.0 + self.ci
            for j, pbo in self.ins:
                v = params['i%d' % j]
                s += float(v if pbo else v[-1])
            unknowns['y'][:] = s
            unknowns['o'] = int(s)
    return Node


class Case(object):
    def __init__(self, spec):
        self.spec = spec
        self.n = spec['n']
        self.edges = []
        for e in spec['edges']:
            if e not in self.edges:
                self.edges.append(list(e))
        self.log = []
        self.groups = []          # (path, node, group)
        self.path = {}
        self.order = {}           # user orders by path
        self.name(spec['tree'], ())

    def kid_name(self, kid, j):
        if isinstance(kid, dict):
            return GNAMES[(j + self.spec['names']) % 3] + GNAMES[3 + (j // 3)]
        k = kid
        pool = NAMES[self.spec['names']:] + NAMES[:self.spec['names']]
        return pool[k % 15] + ('' if k < 15 else str(k))

    def name(self, node, path):
        node['path'] = path
        node['names'] = []
        for j, kid in enumerate(node['kids']):
            nm = self.kid_name(kid, j)
            node['names'].append(nm)
            if isinstance(kid, dict):
                self.name(kid, path + (nm,))
            else:
                self.path[kid] = path + (nm,)

    def pbo(self, e):
        return bool((self.spec['pbo'] >> ((e[0] * 5 + e[1]) % 8)) & 1)

    def build(self):
        from openmdao.api import Group, Problem, ScipyGMRES
        Node = comp_class()
        size = self.spec['size']
        allowed = self.edges + [e for e in self.spec['extra'] if e not in self.edges]

        def make(node):
            g = Group()
            g.ln_solver = ScipyGMRES()
            for nm, kid in zip(node['names'], node['kids']):
                if isinstance(kid, dict):
                    g.add(nm, make(kid))
                else:
                    ins = sorted(set((s, self.pbo([s, t])) for s, t in allowed if t == kid and s != t))
                    g.add(nm, Node(kid, ins, self.log, size))
            self.groups.append((node['path'], node, g))
            return g
        self.prob = Problem(root=make(self.spec['tree']))
        for e in self.edges:
            self.connect(e)

    def connect(self, e):
        """Connect in some group above both ends."""
        s, t = self.path[e[0]], self.path[e[1]]
        k = 0
        while k < min(len(s), len(t)) - 1 and s[k] == t[k] and k < self.spec['at']:
            k += 1
        g = [x[2] for x in self.groups if x[0] == s[:k]][0]
        src = '.'.join(s[k:]) + ('.o' if self.pbo(e) else '.y')
        g.connect(src, '.'.join(t[k:]) + '.i%d' % e[0])

    def user_orders(self, log):
        import random
        for path, node, g in self.groups:
            if not node['user']:
                continue
            names = list(node['names'])
            rnd = random.Random(node['seed'])
            rnd.shuffle(names)
            if node['user'] == 2:
                # invalid requests are rejected and change nothing
                before = [s.name for s in g.subsystems()]
                bad = [names[:-1], names + ['nope'], names + [names[0]], names[:-1] + ['nope'],
                       names[1:] + [names[-1]]][node['seed'] % 5]
                if sorted(bad) == sorted(names):
                    continue
                try:
                    g.set_order(bad)
                except ValueError:
                    pass
                else:
                    check(False, 'order %s accepted for children %s', bad, names)
                check([s.name for s in g.subsystems()] == before, 'rejected order %s changed the order to %s',
                      bad, [s.name for s in g.subsystems()])
                log.label('rejected order')
                continue
            g.set_order(list(names))
            self.order[path] = names
            log.label('user order')

    # -- reference ----------------------------------------------------------

    def sib_edges(self, path):
        out = set()
        for s, t in self.edges:
            a, b = self.path[s], self.path[t]
            k = len(path)
            if a[:k] == path and b[:k] == path and len(a) > k and len(b) > k and a[k] != b[k]:
                out.add((a[k], b[k]))
        return out

    def verify(self, log, what):
        prob = self.prob
        del self.log[:]
        prob.run()
        feedforward = True
        flat = []

        def walk(node):
            path = node['path']
            g = [x[2] for x in self.groups if x[0] == path][0]
            got = [s.name for s in g.subsystems()]
            check(sorted(got) == sorted(node['names']), '%s: children of %s: %s, expected %s', what, path, got,
                  node['names'])
            for nm in got:
                kid = node['kids'][node['names'].index(nm)]
                if isinstance(kid, dict):
                    walk(kid)
                else:
                    flat.append(kid)
        walk(self.spec['tree'])
        check(self.log == flat, '%s: executed %s, the orders of the groups give %s', what, self.log, flat)
        for path, node, g in self.groups:
            got = [s.name for s in g.subsystems()]
            pos = dict((nm, j) for j, nm in enumerate(got))
            edges = self.sib_edges(path)
            reach = closure(node['names'], edges)
            if path in self.order:
                check(got == self.order[path], '%s: order %s was set for group %r, but it runs %s', what,
                      self.order[path], '.'.join(path), got)
                if any(pos[u] > pos[v] for u, v in edges):
                    feedforward = False
                continue
            for u, v in sorted(edges):
                if u in reach[v]:
                    feedforward = False
                    log.label('cycle')
                    continue
                check(pos[u] < pos[v], '%s: group %r runs %s before %s, which it depends on (order %s)', what,
                      '.'.join(path), v, u, got)
            # the reported automatic order and the edges given up for it
            order, broken = g.list_auto_order()
            check(sorted(order) == sorted(node['names']), '%s: automatic order of group %r: %s', what,
                  '.'.join(path), order)
            pre = '.'.join(path) + '.' if path else ''
            brk = set()
            for u, v in broken:
                check(u.startswith(pre) and v.startswith(pre), '%s: broken edge %s of group %r', what, (u, v), pre)
                u, v = u[len(pre):], v[len(pre):]
                check((u, v) in edges and u in reach[v], '%s: edge %s is reported broken, but it is not part of a '
                      'cycle of group %r', what, (u, v), '.'.join(path))
                brk.add((u, v))
            p2 = dict((nm, j) for j, nm in enumerate(order))
            for u, v in sorted(edges - brk):
                check(p2[u] < p2[v], '%s: automatic order %s of group %r violates the dependency %s', what, order,
                      '.'.join(path), (u, v))
        if feedforward:
            log.label('feed-forward')
            val = {}
            deps = dict((t, [s for s, t2 in self.edges if t2 == t]) for t in range(self.n))

            def value(c):
                if c not in val:
                    val[c] = 1.0 + c + sum(value(s) for s in deps[c])
                return val[c]
            for c in range(self.n):
                got = prob['.'.join(self.path[c]) + '.y']
                check((got == value(c)).all(), '%s: %s is %s after one pass, expected %s', what,
                      '.'.join(self.path[c]), got.tolist(), value(c))


def closure(names, edges):
    reach = dict((n, set([n])) for n in names)
    grow = True
    while grow:
        grow = False
        for u, v in edges:
            new = reach[v] - reach[u]
            if new:
                reach[u] |= new
                grow = True
    return reach


def run_order(spec, log):
    case = Case(spec)
    case.build()
    case.user_orders(log)
    prob = case.prob
    # once a user has given an order, nothing can be added
    prob.setup(check=False)
    nn = sum(1 for path, node, g in case.groups if case.sib_edges(path) and path not in case.order)
    log.label('groups with dependencies: %d' % min(nn, 3))
    log.nontrivial(nn >= 1)
    case.verify(log, 'first setup')
    if not spec['resetup']:
        return
    for e in spec['extra']:
        if e[0] != e[1] and e not in case.edges:
            case.connect(e)
            case.edges.append(e)
    prob.setup(check=False)
    case.verify(log, 'second setup')
    log.label('set up again with %d more connections' % len(spec['extra']))
    if spec['addcomp']:
        free = [x for x in case.groups if x[0] not in case.order]
        if free:
            path, node, g = free[spec['at'] % len(free)]
            new = case.n
            nm = 'new'
            srcs = sorted(case.path)[-2:]
            ins = [(s, False) for s in srcs]
            g.add(nm, comp_class()(new, ins, case.log, spec['size']))
            node['kids'].append(new)
            node['names'].append(nm)
            case.path[new] = path + (nm,)
            case.n += 1
            for s in srcs:
                src = '.'.join(case.path[s]) + '.y'
                prob.root.connect(src, '.'.join(case.path[new]) + '.i%d' % s)
                case.edges.append([s, new])
            # the values of the connections are not pass_by_obj here
            case.pbo = (lambda old: lambda e: False if e[1] == new else old(e))(case.pbo)
            prob.setup(check=False)
            case.verify(log, 'after adding a subsystem')
            log.label('subsystem added after setup')


FACETS = [
    Facet('order', graphs, run_order, 6000,
          rule='random dependency graphs (a quarter with cycles) over random hierarchies, user orders on some groups, '
               'invalid orders, repeated setup with further connections and subsystems; non-trivial: some group '
               'without a user order has siblings that depend on each other'),
]
