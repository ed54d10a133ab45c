"""C08  Prim: a minimum spanning tree of the part reachable from the source."""
from .common import *

BOUNDS = {
    'quick': 'edge costs: all integers, multiples of 1/4 in -10^6..10^6 on 3 and 4 nodes; both implementations (search(algo=Prim), minimum_spanning_tree_prim); all graphs '
             'of 3 nodes with loops and of 4 nodes, fixed topologies of 5-7 nodes; every source on the small graphs; '
             'repeated calls; five families of names',
    'thorough': 'as quick plus 5-node wheels and subsets of K5'}
OUTSIDE = 'other costs; larger graphs; a caller-supplied queue'


def prim(h, n, arcs, via, fixed=0, names='int', twice=False, pick=False, const=(), den=1, dest=False):
    nm = namer(names)
    arcs = subset(h, [tuple(a) for a in arcs], fixed)
    cost = [const[k] if k < len(const) and const[k] is not None else h.num('c%d' % k, den=den) for k in range(len(arcs))]
    g = build(h, False, n, arcs, nm, cost=cost)
    idx = {nm(i): i for i in range(n)}
    s = h.choice('source', n) if pick else 0
    nodes = reach(n, arcs, s, False)
    trees = spanning_trees(n, arcs, nodes)
    for rep in range(2 if twice else 1):
        if via == 'search':
            p = h.call('search(Prim)', g.search, nm(s), algo='Prim')
        else:
            p = h.call('minimum_spanning_tree_prim', g.minimum_spanning_tree_prim, nm(s))
        h.observe('pred%d' % rep, p)
        pred = {idx[a]: idx[b] for a, b in p.items()}
        h.check('the tree contains exactly the reachable nodes', set(pred) == nodes - {s})
        ids = []
        for a, b in sorted(pred.items()):
            k = [k for k, e in enumerate(arcs) if e == (a, b) or e == (b, a)]
            if not k:
                h.fail('every tree edge is an edge of the graph')
            ids.append(k[0])
        lab = components(n, [arcs[k] for k in ids])
        h.check('the tree connects the reachable nodes', len({lab[v] for v in nodes}) == 1)
        tot = SUM(cost[k] for k in ids)
        h.check('no spanning tree is cheaper', AND([tot <= SUM(cost[k] for k in t) for t in trees]))


def scenarios(tier):
    T = tier == 'thorough'
    S = []

    def add(**k):
        S.append((prim, k))
    for via in ('search', 'mst'):
        for nk in ('big', 'str', 'mixed', 'int', 'neg'):
            add(n=3, arcs=all_edges(3, True), names=nk, via=via, pick=True)
        add(n=4, arcs=all_edges(4), names='str', via=via, const=[] if T or via == 'mst' else [None, None, 0])
        add(n=4, arcs=all_edges(4)[::-1], fixed=6, via=via, pick=True, const=[] if T or via == 'mst' else [5])
        add(n=3, arcs=all_edges(3), twice=True, via=via, names='big', pick=True)
        add(n=4, arcs=[(2, 3), (1, 3), (1, 2), (0, 1)], fixed=3, twice=True, via=via)
        add(n=3, arcs=all_edges(3), via=via, den=4, pick=True)
        add(n=4, arcs=[(2, 3), (1, 3), (1, 2), (0, 1), (0, 2)], fixed=4, via=via, den=4, names='str')
        n, a = topo('wheel5')
        add(n=n, arcs=a, fixed=99, const=[None] * 4 + [2, 4, 6, 8], via=via)
        add(n=n, arcs=a, fixed=99, const=[7, 5, 3, 1, None, None, None, None], names='str', via=via)
        n, a = topo('two6')
        add(n=n, arcs=a, fixed=99, names='big', via=via, pick=True)
        n, a = topo('grid6')
        add(n=n, arcs=a, fixed=99, names='mixed', via=via, const=[] if T else [4, None, 2])
        add(n=7, arcs=topo('path7')[1], fixed=99, via=via, const=[] if T else [None, 1, None, None, 1])
        add(n=10, arcs=HUB, fixed=99, const=[9, None, 3, 4, None, 8, 2, 5, 1, 3, 0, 2, None], names='ten', via=via)
        add(n=10, arcs=WIDE[:12], fixed=99, const=WCOST, names='ten', via=via)
        add(n=10, arcs=WIDE[:12][::-1], fixed=10, const=[2, None, 5, 1, None, 3, 4, 2, 1, 6, 2, 7], names='tens', via=via, pick=T)
        if T:
            add(n=6, arcs=topo('star6')[1], fixed=99, via=via)
            add(n=5, arcs=topo('wheel5')[1], fixed=99, via=via)
            add(n=5, arcs=all_edges(5), const=[None] * 6 + [1, 2, 3, 4], fixed=5, via=via)
    for via in ('search', 'mst'):
        again(S, 'C08', 'prim', n=5, arcs=[(0, 1), (1, 2), (2, 3), (0, 2), (3, 4), (1, 4)], names='str', fixed=4, const=[3, 1, None, 5, 2, 4], via=via)
    othernames(S)
    return S
