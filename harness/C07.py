"""C07  Kruskal returns a minimum spanning forest."""
from .common import *

BOUNDS = {
    'quick': 'edge costs: all integers, multiples of 1/4 in -10^6..10^6 on 3 and 4 nodes; all graphs of 3 nodes with loops and of 4 nodes (6 edges); fixed topologies of '
             '5-6 nodes with 5-7 edges; five families of names, repeated calls',
    'thorough': 'as quick with topologies of up to 8 edges'}
OUTSIDE = 'other costs; larger graphs; sets given by the caller that are not empty'


def kruskal(h, n, arcs, fixed=0, names='int', twice=False, const=(), den=1, own=False):
    nm = namer(names)
    arcs = subset(h, [tuple(a) for a in arcs], fixed)
    cost = [const[k] if k < len(const) and const[k] is not None else h.num('c%d' % k, den=den) for k in range(len(arcs))]
    g = build(h, False, n, arcs, nm, cost=cost)
    idx = {nm(i): i for i in range(n)}
    lab = components(n, arcs)
    ncomp = len(set(lab))
    # spanning forests: one spanning tree per component
    forests = [()]
    for c in sorted(set(lab)):
        nodes = [v for v in range(n) if lab[v] == c]
        forests = [f + t for f in forests for t in spanning_trees(n, arcs, nodes)]
    for rep in range(2 if twice else 1):
        k = {}
        if own:     # the sets are those of the caller
            opt = h.bool('optimize%d' % rep)
            k['components'] = gp().DisjointSet(display='off', optimize=opt)
        r = h.call('minimum_spanning_tree_kruskal', g.minimum_spanning_tree_kruskal, **k)
        if own:
            find = [h.call('find', k['components'].find, nm(v)) for v in range(n)]
            h.check('the sets of the caller are the components of the graph',
                    all((find[a] == find[b]) == (lab[a] == lab[b]) for a in range(n) for b in range(n)))
        h.observe('edges%d' % rep, r)
        ids = []
        for e in r:
            i, j = idx[e[0]], idx[e[1]]
            k = [k for k, a in enumerate(arcs) if a == (i, j) or a == (j, i)]
            if not k:
                h.fail('every returned edge is an edge of the graph')
            ids.append(k[0])
        h.check('no edge is returned twice', len(set(ids)) == len(ids))
        h.check('the edges connect every component of the graph', components(n, [arcs[k] for k in ids]) == lab)
        h.check('the edges contain no cycle', len(ids) == n - ncomp)
        tot = SUM(cost[k] for k in ids)
        h.check('no spanning forest is cheaper', AND([tot <= SUM(cost[k] for k in f) for f in forests]))
        h.check('the graph keeps its edges', g.get_edge_num() == len(arcs))


def scenarios(tier):
    T = tier == 'thorough'
    S = []

    def add(**k):
        S.append((kruskal, k))
    for nk in ('big', 'str', 'mixed', 'int', 'neg'):
        add(n=3, arcs=all_edges(3, True), names=nk)
    add(n=4, arcs=all_edges(4), names='str')
    add(n=4, arcs=all_edges(4)[::-1], fixed=6)
    add(n=4, arcs=all_edges(4), own=True, fixed=2, names='neg')
    add(n=4, arcs=[(2, 3), (1, 3), (1, 2), (0, 1), (3, 3)], fixed=2, twice=True, own=True, names='mixed')
    add(n=3, arcs=all_edges(3), twice=True)
    add(n=4, arcs=[(2, 3), (1, 3), (1, 2), (0, 1), (3, 3)], fixed=3, twice=True, names='big')
    add(n=3, arcs=all_edges(3, True), names='str', den=4)
    add(n=4, arcs=all_edges(4), fixed=4, den=4)
    add(n=5, arcs=[(0, 1), (1, 2), (2, 0), (3, 4), (3, 3)], fixed=5)
    n, a = topo('wheel5')
    add(n=n, arcs=a, fixed=99, const=[None] * 4 + [2, 4, 6, 8])
    add(n=n, arcs=a, fixed=99, const=[7, 5, 3, 1, None, None, None, None], names='str')
    n, a = topo('two6')
    add(n=n, arcs=a, fixed=99, names='big')
    n, a = topo('grid6')
    add(n=n, arcs=a, fixed=99, const=[3, 3, 5], names='mixed')
    add(n=7, arcs=topo('path7')[1], fixed=99, const=[None] * 4 + [-1, 0, 4])
    if T:
        add(n=6, arcs=topo('star6')[1], fixed=99)
        add(n=5, arcs=topo('wheel5')[1][:7], fixed=99)
        add(n=5, arcs=all_edges(5), const=[None] * 5 + [1, 2, 3, 4, 5], fixed=5)
    add(n=10, arcs=WIDE[:12], fixed=10, const=WCOST, names='tens', own=True)
    add(n=10, arcs=HUB, fixed=11, const=[9, None, 3, 4, None, 8, 2, 5, 1, 3, 0, 2, None], names='ten')
    add(n=10, arcs=WIDE[:12], fixed=99, const=WCOST, names='ten')
    add(n=10, arcs=WIDE[:12][::-1], fixed=10, const=[2, None, 5, 1, None, 3, 4, 2, 1, 6, 2, 7], names='tens')
    again(S, 'C07', 'kruskal', n=5, arcs=[(0, 1), (1, 2), (2, 3), (0, 2), (3, 4), (1, 4)], names='str', fixed=4, const=[3, 1, None, 5, 2, 4])
    othernames(S)
    return S
