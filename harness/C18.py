"""C18  Floyd-Warshall: exact distances, paths, negative cycles."""
from .common import *

BOUNDS = {
    'quick': 'arc costs: all integers, multiples of 1/4 on 2-3 nodes; all digraphs of 2 nodes with loops and of 3 nodes (symbolic arc subsets), subsets '
             'of 6-8 arcs on 4-5 nodes; five families of names; with and without negative cycles',
    'thorough': 'as quick with fewer fixed costs'}
OUTSIDE = 'undirected graphs, other costs, larger graphs'


def costs_of(h, arcs, const, den=1):
    return [const[k] if k < len(const) and const[k] is not None else h.num('c%d' % k, den=den) for k in range(len(arcs))]


def all_pairs(h, n, arcs, fixed=0, names='int', const=(), mode='all', perm=None, twice=False, den=1):
    """mode: all | valid (no negative cycle assumed) | cycle (get_negative_cycle) | element (cycle from a node)"""
    base = namer(names)
    perm = perm or list(range(n))
    nm = lambda i: base(perm[i])
    arcs = subset(h, [tuple(a) for a in arcs], fixed)
    cost = costs_of(h, arcs, const, den)
    g = new_graph(True)
    for i in sorted(range(n), key=lambda i: perm[i]):
        g.add_node(nm(i))
    for k, (i, j) in enumerate(arcs):
        g.add_edge(nm(i), nm(j), cost=cost[k])
    idx = {nm(i): i for i in range(n)}
    arc = {a: k for k, a in enumerate(arcs)}
    nonneg = AND([SUM(cost[k] for k in c) >= 0 for c in simple_cycles(n, arcs)])
    if mode in ('cycle', 'element'):
        if mode == 'cycle':
            c = h.call('get_negative_cycle', g.get_negative_cycle)
        else:
            # the cycle found from a node that has one on a walk back to itself
            valid, dist, nextn = h.call('floyd_warshall', g.floyd_warshall)
            e = h.choice('element', n)
            h.assume(dist[nm(e), nm(e)] < 0)
            c = h.call('floyd_warshall_get_cycle', g.floyd_warshall_get_cycle, dist, nextn, nm(e))
        if c is None:
            h.check('None is returned only if there is no negative cycle', nonneg)
            return
        h.check('a non-empty list of nodes is returned', isinstance(c, list) and len(c) > 0 and all(x in idx for x in c))
        st = [(idx[a], idx[b]) for a, b in zip(c, c[1:] + c[:1])]
        h.observe('cycle', c)
        if not all(x in arc for x in st):
            h.fail('the cycle consists of arcs of the graph')
        h.check('the cost of the cycle is negative', SUM(cost[arc[x]] for x in st) < 0)
        h.check('no node is repeated', len(set(c)) == len(c))
        return
    if mode == 'valid':
        h.assume(nonneg)
    for rep in range(2 if twice else 1):
        if rep:
            cost[0] = h.int('new')
            g.set_edge_attr(nm(arcs[0][0]), nm(arcs[0][1]), 'cost', cost[0])
            nonneg = AND([SUM(cost[k] for k in c) >= 0 for c in simple_cycles(n, arcs)])
        valid, dist, nextn = h.call('floyd_warshall', g.floyd_warshall)
        if not valid:
            h.check('negative cycles are reported only if there is one', NOT(nonneg))
            return
        h.check('every negative cycle is reported', nonneg)
        for s in range(n):
            P = simple_paths(n, arcs, s)
            for t in range(n):
                d = dist[(nm(s), nm(t))]
                if not P[t]:
                    h.check('the distance is infinite exactly for unreachable pairs', isinstance(d, str) or (d is None) or d == float('inf'))
                    h.check('no path is returned for unreachable pairs',
                            h.call('floyd_warshall_get_path', g.floyd_warshall_get_path, dist, nextn, nm(s), nm(t)) is None)
                    continue
                h.check('the distance is finite exactly for reachable pairs', d != 'infinity' and d is not None)
                tot = [SUM(cost[k] for k in p) for p in P[t]]
                h.check('the distance is the cost of a cheapest path', AND([d <= x for x in tot] + [OR([EQ(d, x) for x in tot])]))
                p = h.call('floyd_warshall_get_path', g.floyd_warshall_get_path, dist, nextn, nm(s), nm(t))
                if not isinstance(p, list) or not all(x in idx for x in p):
                    h.fail('the path is a list of nodes')
                q = [idx[x] for x in p]
                st = list(zip(q, q[1:]))
                if q[:1] != [s] or q[-1:] != [t] or not all(x in arc for x in st):
                    h.fail('the path leads from i to j over arcs of the graph')
                h.check('the path has the cost of the distance', EQ(SUM(cost[arc[x]] for x in st), d))


D4 = [(0, 1), (1, 2), (2, 0), (1, 3), (3, 2), (0, 2), (3, 0), (2, 1)]
D5 = [(0, 1), (1, 2), (2, 3), (3, 4), (4, 1), (0, 3), (3, 1), (4, 0)]


def scenarios(tier):
    S = []
    T = tier == 'thorough'

    def add(**k):
        S.append((all_pairs, k))
    for mode in ('all', 'cycle'):
        add(n=1, arcs=[(0, 0)], mode=mode)
        add(n=2, arcs=all_arcs(2, True), mode=mode, names='big')
        add(n=3, arcs=all_arcs(3), mode=mode, names='str')
        add(n=3, arcs=all_arcs(3) + [(0, 0), (2, 2)], mode=mode, names='neg', fixed=4, perm=[1, 2, 0])
        add(n=2, arcs=all_arcs(2, True), mode=mode, den=4)
        add(n=3, arcs=all_arcs(3)[:5], fixed=3, mode=mode, names='str', den=4)
        add(n=4, arcs=D4, fixed=6, mode=mode, names='mixed', const=[] if T else [None, 2, None, None, None, None, -1])
        add(n=5, arcs=D5, fixed=7, mode=mode, names='int', const=[] if T else [1, None, None, -2, None, 3], perm=[4, 3, 2, 1, 0])
        add(n=5, arcs=D5, fixed=8, mode=mode, names='str', const=[] if T else [None, 2, -1, None, 0, None, 3, -4], perm=[2, 0, 3, 1, 4])
        add(n=3, arcs=all_arcs(3, True), mode=mode, names='int')
        add(n=4, arcs=D4, fixed=4, mode=mode, names='big', perm=[1, 3, 0, 2], const=[] if T else [None, None, None, None, 1, -2])
        add(n=4, arcs=all_arcs(4), fixed=12, mode=mode, const=[4, None, 3, -1, 2, None, -3, 5, 1, None, 2, 0])
        add(n=4, arcs=all_arcs(4), fixed=0, mode=mode, const=[2, None, 3, -1, 2, 4, -3, 5, 1, None, 2, 0], names='str')
        n, a = topo('back5')
        add(n=n, arcs=a, fixed=99, mode=mode, const=[] if T else [None, None, 2, None, None, 1])
        n, a = topo('cyc6')
        add(n=n, arcs=a, fixed=99, mode=mode, perm=[3, 5, 0, 2, 4, 1], names='mixed')
        n, a = topo('ladder6')
        add(n=n, arcs=a, fixed=5 if T else 99, mode=mode, names='neg')
        if T:
            add(n=4, arcs=all_arcs(4), fixed=6, mode=mode, const=[None] * 7 + [1, -1, 2, 0, 3])
    for mode in ('all', 'cycle'):
        add(n=10, arcs=HUBC, fixed=99, mode=mode, names='tens', const=[9, 1, 3, -4, 2, 8, -2, 5, 1, None, 0, 2, 6, 1])
        add(n=10, arcs=WIDEC, fixed=99, mode=mode, names='ten', const=[3, 1, -4, 2, 1, None, 2, 6, 9, -1, 2, 7, 3, 4, 1, None])
        # two cycles, one within reach of the other
        add(n=5, arcs=[(0, 3), (0, 4), (1, 0), (1, 2), (2, 1), (2, 4), (3, 0), (4, 2)], fixed=99, mode=mode, names='int',
            const=[None, -3, 4, -2, -3, 1, None, None])
        add(n=5, arcs=[(0, 3), (1, 2), (2, 0), (2, 1), (2, 4), (3, 0), (3, 2), (4, 0), (4, 2)], fixed=99, mode=mode, names='str',
            const=[None, -2, 2, 0, 2, None, 0, None, -3])
    add(n=3, arcs=all_arcs(3), mode='element', names='mixed', fixed=3)
    add(n=5, arcs=[(0, 3), (0, 4), (1, 0), (1, 2), (2, 1), (2, 4), (3, 0), (4, 2)], fixed=99, mode='element', names='str',
        const=[None, -3, 4, -2, None, 1, None, 0])
    add(n=0, arcs=[], mode='cycle')
    add(n=4, arcs=D4[:6], fixed=4, mode='valid', names='big', perm=[3, 0, 2, 1], const=[] if T else [None, None, 1])
    add(n=3, arcs=[(0, 1), (1, 2), (2, 0), (0, 2)], fixed=4, mode='all', twice=True)
    for mode in ('valid', 'all', 'cycle'):
        again(S, 'C18', 'all_pairs', n=4, arcs=[(0, 1), (1, 2), (2, 3), (0, 2), (3, 1)], names='str', fixed=99, const=[3, -2, None, 5, 2], mode=mode)
    othernames(S)
    return S
