"""C24  random(): whatever the generator draws, the graph is of the requested kind."""
import random as _random
from .common import *

BOUNDS = {
    'quick': 'every outcome of every draw (integers over their whole range, probabilities and coordinates over a grid) for '
             'up to 4 nodes, directed and undirected, degree_range and density, with and without lengths, labels, parallel '
             'edges, custom formats, any seed, Euclidean with both selection rules and other scales; symbolic length ranges and costs unbounded; on 9-12 '
             'nodes with two free draws, the others scripted',
    'thorough': 'as quick with up to 5 nodes and a finer grid'}
OUTSIDE = 'fewer than two nodes with degree_range (there is no partner to draw), calls on a graph that has nodes already, '\
          'the distribution of the draws, coordinates outside the grid'


class Draws(object):
    """the random module with every draw chosen by the solver"""

    def __init__(self, h, grid, coords, free=None):
        self.h, self.grid, self.coords, self.free = h, grid, coords, free
        self.k = 0
        self.unit = []      # draws of random()
        self.seeds = []
        self.early = False  # a draw before the seed was set

    def nxt(self):
        self.k += 1
        self.early = self.early or not self.seeds
        return 'r%d' % self.k

    def scripted(self, m):
        """None if the next draw is the solver's, else one of 0..m-1 (only some draws are free)"""
        if self.free is None or self.k + 1 in self.free or m <= 0:
            return None
        self.nxt()
        return (self.k * 7919 + self.k * self.k * 104729) % 10007 % m

    def seed(self, a=None, version=2):
        self.seeds.append(a)

    def Random(self, x=None):
        self.seeds.append(x)
        return self

    def randint(self, a, b):
        if not bool(a <= b):
            raise ValueError('empty range')
        if type(a) is int and type(b) is int:
            v = self.scripted(b - a + 1)
            if v is not None:
                return a + v
        v = self.h.int(self.nxt())
        self.h.assume(AND(0 <= v, v <= b - a))
        if self.h.symbolic and type(a) is int and type(b) is int:
            v = self.h.ex.concretize(v)     # used as a node or a degree
        return a + v

    def randrange(self, a, b=None, step=1):
        if step != 1:
            return a + step * self.randint(0, (b - a - 1) // step)
        return self.randint(0, a - 1) if b is None else self.randint(a, b - 1)

    def random(self):
        v = self.scripted(self.grid)
        if v is not None:
            u = v / self.grid
        elif self.coords and len(self.unit) < self.coords[0]:
            i = self.h.choice(self.nxt(), len(self.coords[1]))
            u = self.coords[1][i]
        else:
            i = self.h.int(self.nxt(), 0, self.grid - 1)
            u = i / self.grid
        self.unit.append(u)
        return u

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def choice(self, seq):
        v = self.scripted(len(seq))
        return seq[self.h.choice(self.nxt(), len(seq)) if v is None else v]

    def sample(self, pop, k):
        pop = list(pop)
        out = []
        for _ in range(k):
            out.append(self.choice(pop))
            pop.remove(out[-1])
        return out

    def choices(self, pop, weights=None, cum_weights=None, k=1):
        return [self.choice(pop) for _ in range(k)]

    def shuffle(self, x):
        x[:] = self.sample(x, len(x))


PATCH = ('seed', 'randint', 'randrange', 'random', 'uniform', 'choice', 'sample', 'choices', 'shuffle', 'Random')


def with_draws(h, d, label, fn, **k):
    old = {n: getattr(_random, n) for n in PATCH}
    for n in PATCH:
        setattr(_random, n, getattr(d, n))
    try:
        return h.call(label, fn, **k)
    finally:
        for n in PATCH:
            setattr(_random, n, old[n])


def rnd(h, directed, n, mode, deg=None, density=None, lengths='sym', labels=True, parallel=False,
        euclid=None, fmt=False, grid=8, coords=None, free=None, seed=False, scale=None, factor=None):
    """mode: degree / density; euclid: None / closest / random"""
    G = gp()
    g = new_graph(directed)
    kw = dict(numnodes=n, add_labels=labels, parallel_allowed=parallel)
    lo = hi = None
    if lengths is None:
        kw['length_range'] = None
    elif lengths == 'sym':
        lo, hi = h.int('lo'), h.int('hi')
        h.assume(lo <= hi)
        kw['length_range'] = (lo, hi)
    elif lengths == 'default':
        lo, hi = 1, 10
    if mode == 'degree':
        if deg != 'default':
            kw['degree_range'] = tuple(deg)
        else:
            deg = (2, 4)
    else:
        if density == 'sym':
            density = h.int('density', 0, grid) / grid
        kw['density'] = density
    if euclid:
        kw['Euclidean'] = True
        kw['node_selection'] = euclid
    ef, nf = {'fontsize': 10, 'fontcolor': 'blue'}, {'shape': 'circle', 'fontsize': 10}
    if fmt:
        ef, nf = {'color': 'red', 'penwidth': 2}, {'shape': 'box', 'label': 'x', 'height': 0.25, 'fontcolor': 'green'}
        kw['edge_format'], kw['node_format'] = dict(ef), dict(nf)
    if seed:
        kw['seedInput'] = h.int('seed')
    if scale:
        kw['scale'] = scale
    if factor:
        kw['scale_cost'] = factor
    d = Draws(h, grid, (2 * n, coords or [0.0, 0.5, 0.9]) if euclid else None, free)
    with_draws(h, d, 'random', g.random, **kw)
    h.check('the draws are those of the seed', not d.early and d.seeds and all(bool(x == kw.get('seedInput', 0)) for x in d.seeds))

    nl = h.call('get_node_list', g.get_node_list)
    h.check('exactly the requested nodes', len(nl) == n and sorted(nl) == list(range(n)))
    for v in nl:
        nd = g.get_node(v)
        h.check('nodes carry the node format', all(nd.get_attr(a) == nf[a] for a in nf))
        if euclid:
            x, y = nd.get_attr('locationx'), nd.get_attr('locationy')
            h.check('nodes of a Euclidean graph lie in the square', x is not None and y is not None
                    and bool(0 <= x) and bool(x <= (scale or 10)) and bool(0 <= y) and bool(y <= (scale or 10)))
            pos = str(nd.get_attr('pos')).strip('"').rstrip('!').split(',')
            h.check('a node is pinned in the picture at its place', len(pos) == 2 and abs(float(pos[0]) - x) < 1e-6
                    and abs(float(pos[1]) - y) < 1e-6)
    el = h.call('get_edge_list', g.get_edge_list)
    ends = []
    for e in el:
        ij = [[i for i in range(n) if bool(e[k] == i)] for k in (0, 1)]
        h.check('edges join nodes of the graph', all(len(x) == 1 for x in ij))
        if not all(len(x) == 1 for x in ij):
            return
        ends.append((ij[0][0], ij[1][0]))
    h.check('no self-loops', all(i != j for i, j in ends))
    h.check('no edge twice', len(set(ends)) == len(ends))
    if not parallel or not directed:
        h.check('no antiparallel edges', not any((j, i) in ends for i, j in ends))
    h.check('the graph has the requested type', (g.graph_type == G.DIRECTED_GRAPH) == directed)
    pairs = n * (n - 1) // 2
    if mode == 'degree':
        for v in range(n):
            out = sum(1 for i, j in ends if i == v)
            h.check('a node opens no more edges than the degree range allows', out <= deg[1])
        if tuple(deg)[1] == 0:
            h.check('degree 0 gives no edge', not ends)
        if euclid == 'closest' and deg[0] >= n - 1:
            h.check('degree n-1 joins every pair', len({frozenset(e) for e in ends}) == pairs)
        if euclid == 'closest':
            at = [[g.get_node(v).get_attr('location' + a) for a in 'xy'] for v in range(n)]
            far = [[((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2) ** 0.5 * (factor or 5) for q in at] for p in at]
            h.check('a node is joined to nodes that are among its closest', all(
                any(sum(1 for z in range(n) if z not in (x, y) and far[x][z] + 1.001 < far[x][y]) < deg[1]
                    for x, y in ([(i, j)] if directed else [(i, j), (j, i)])) for i, j in ends))
    else:
        draws = d.unit[2 * n if euclid else 0:]
        h.check('an edge exists for every draw below the density',
                len(ends) == sum(1 for u in draws if bool(u < density)))
        h.check('every pair is drawn for', len(draws) >= pairs)
        if directed and parallel:
            h.check('every ordered pair is drawn for', len(draws) == 2 * pairs)
        if not directed:
            h.check('every pair is drawn for once', len(draws) == pairs)
    def attr(e, a):
        try:
            return g.get_edge_attr(e[0], e[1], a)
        except KeyError:
            return None
    for k, e in enumerate(el):
        h.check('edges carry the edge format', all(attr(e, a) == ef[a] for a in ef))
        c = attr(e, 'cost')
        lab = attr(e, 'label')
        want_cost = True
        if euclid:
            if mode == 'degree' or lengths is None:
                i, j = ends[k]
                p, q = g.get_node(i), g.get_node(j)
                r = ((p.get_attr('locationx') - q.get_attr('locationx')) ** 2 +
                     (p.get_attr('locationy') - q.get_attr('locationy')) ** 2) ** 0.5
                f = (factor or 5) if mode == 'degree' else 1
                h.check('the cost is the rounded distance', c is not None and c == int(c) and abs(c - f * r) <= 0.5 + 1e-9)
            else:
                want_cost = False
        elif lengths is None:
            want_cost = False
        else:
            h.check('edges have a cost', c is not None)
            h.check('costs lie in the length range', AND(lo <= c, c <= hi))
        if want_cost:
            h.check('the label shows the cost', (lab is not None and lab == str(c)) if labels else lab is None)
    h.observe('edges', ends)


def scenarios(tier):
    S = []
    T = tier == 'thorough'

    def add(directed, n, mode, **k):
        S.append((rnd, dict(directed=directed, n=n, mode=mode, **k)))
    for d in (True, False):
        add(d, 3, 'degree', deg=[0, 2])
        add(d, 3, 'degree', deg=[1, 3], parallel=True)
        add(d, 4, 'degree', deg=[1, 1], lengths=None)
        add(d, 4, 'degree', deg=[1, 1], labels=False, fmt=True)
        add(d, 2, 'degree', deg='default', lengths='default')
        add(d, 3, 'degree', deg=[2, 2])
        add(d, 4, 'degree', deg=[1, 2])
        add(d, 2, 'degree', deg=[0, 0])
        add(d, 3, 'density', density='sym')
        add(d, 3, 'density', density=0.5, parallel=True)
        add(d, 3, 'density', density=0, lengths=None)
        add(d, 4, 'density', density=1)
        add(d, 2, 'density', density=1, lengths='default')
        add(d, 3, 'density', density=0.3, lengths=None, fmt=True, labels=False)
        add(d, 1, 'density', density=0.5)
        add(d, 4, 'density', density=0.7, lengths=None)
        for e in ('closest', 'random'):
            add(d, 3, 'degree', deg=[1, 1 + (e == 'closest')], euclid=e, lengths='default', coords=[0.0, 0.5])
            add(d, 3, 'degree', deg=[2, 2], euclid=e, lengths='default', parallel=True, coords=[0.1, 0.4] if T or e == 'closest' else [0.3])
            add(d, 2, 'degree', deg=[1, 3], euclid=e, lengths='default', labels=False, coords=[0.0, 0.33, 0.9] if T or e == 'closest' else [0.0, 0.9])
        add(d, 3, 'degree', deg=[0, 1], euclid='closest', lengths='default', coords=[0.0, 0.005])
        add(d, 3, 'degree', deg=[3, 4], euclid='closest', lengths='default', coords=[0.2, 0.9])
        add(d, 3, 'density', density=0.5, euclid='closest', lengths=None, coords=[0.1, 0.8], fmt=True)
        add(d, 2, 'density', density='sym', euclid='closest', lengths='default')
        add(d, 3, 'degree', deg=[1, 1], seed=True)
        add(d, 3, 'density', density=0.5, seed=True, lengths=None)
        add(d, 3, 'degree', deg=[0, 1], euclid='closest', lengths='default', coords=[0.0, 0.5], seed=True, scale=3, factor=2)
        add(d, 3, 'degree', deg=[1, 1], euclid='random', lengths='default', coords=[0.1, 0.6], scale=40, factor=1)
        add(d, 3, 'density', density=0.5, euclid='random', lengths=None, coords=[0.1, 0.8], seed=True, scale=25, factor=3)
        add(d, 4, 'degree', deg=[1, 1], euclid='closest', lengths='default', free=(1, 3, 4, 9), grid=5)
        add(d, 5, 'degree', deg=[2, 2], euclid='closest', lengths='default', free=(1, 4, 5), grid=9, factor=4)
        # 9-12 nodes: two draws are free, the others scripted
        for k in range(4):
            for f in ((3, 20 + 9 * k), (1 + k, 33), (12 + 5 * k, 14 + 5 * k)):
                add(d, 9 + k, 'degree', deg=([1, 3], [0, 4], [2, 2], [3, 5])[k], free=f, lengths=('sym', 'default', None)[k % 3], parallel=k == 2)
            add(d, 9 + k, 'density', density=(0.3, 0.6, 1, 0.1)[k], free=(5, 40), lengths=('default', None, 'sym')[k % 3], parallel=k == 1, grid=100)
            add(d, 9 + k, 'degree', deg=([1, 2], [2, 4])[k % 2], free=(2, 30), euclid=('closest', 'random')[k % 2], lengths='default',
                parallel=k == 3, grid=100)
            add(d, 8 + k, 'density', density=0.4, free=(2, 30), euclid='closest', lengths=None, grid=100)
        if T:
            add(d, 4, 'degree', deg=[0, 2])
            add(d, 5, 'degree', deg=[1, 1])
            add(d, 4, 'density', density='sym', parallel=True)
            add(d, 5, 'density', density=0.5)
            add(d, 4, 'degree', deg=[1, 2], euclid='closest', lengths='default', coords=[0.0, 0.7])
            add(d, 3, 'degree', deg=[1, 2], euclid='random', lengths='default', coords=[0.0, 0.35, 0.9])
    return S
