"""C19  FIFO label correcting: exact distances or a reachable negative cycle."""
from .common import *

BOUNDS = {
    'quick': 'arc costs: all integers, multiples of 1/4 on 3 nodes; every source; all digraphs of 2-3 nodes with loops (symbolic arc subsets), '
             'subsets of 7-12 arcs on 4-6 nodes with some costs fixed; five families of names; repeated calls',
    'thorough': 'as quick with fewer fixed costs and more arcs'}
OUTSIDE = 'undirected graphs, other costs, larger graphs'


def label_correcting(h, n, arcs, fixed=0, names='int', const=(), perm=None, pick=True, twice=False, den=1):
    base = namer(names)
    perm = perm or list(range(n))
    nm = lambda i: base(perm[i])
    arcs = subset(h, [tuple(a) for a in arcs], fixed)
    cost = [const[k] if k < len(const) and const[k] is not None else h.num('c%d' % k, den=den) for k in range(len(arcs))]
    g = new_graph(True)
    for i in sorted(range(n), key=lambda i: perm[i]):
        g.add_node(nm(i))
    for k, (i, j) in enumerate(arcs):
        g.add_edge(nm(i), nm(j), cost=cost[k])
    idx = {nm(i): i for i in range(n)}
    arc = {a: k for k, a in enumerate(arcs)}
    s = h.choice('source', n) if pick else 0
    for rep in range(2 if twice else 1):
        if rep:
            s = n - 1 - s
            cost[0] = h.int('new')
            g.set_edge_attr(nm(arcs[0][0]), nm(arcs[0][1]), 'cost', cost[0])
        R = reach(n, arcs, s)
        cyc = [c for c in simple_cycles(n, arcs) if arcs[c[0]][0] in R]
        nonneg = AND([SUM(cost[k] for k in c) >= 0 for c in cyc])
        ok, r = h.call('fifo_label_correcting', g.fifo_label_correcting, nm(s))
        h.observe('result%d' % rep, r)
        if not ok:
            h.check('a negative cycle is reported only if one is reachable', NOT(nonneg))
            h.check('the cycle is a non-empty list of nodes', isinstance(r, list) and len(r) > 0 and all(x in idx for x in r))
            q = [idx[x] for x in r]
            st = list(zip(q, q[1:] + q[:1]))
            if not all(x in arc for x in st):
                h.fail('the cycle consists of arcs of the graph')
            h.check('the cycle is reachable', q[0] in R)
            h.check('no node of the cycle is repeated', len(set(q)) == len(q))
            h.check('the cost of the cycle is negative', SUM(cost[arc[x]] for x in st) < 0)
            continue
        h.check('every reachable negative cycle is reported', nonneg)
        pred = {idx[a]: (None if b is None else idx[b]) for a, b in r.items()}
        h.check('predecessors exist for exactly the reachable nodes', set(pred) == R and pred[s] is None)
        P = simple_paths(n, arcs, s)
        for t in range(n):
            d = g.get_node_attr(nm(t), 'distance')
            if t not in R:
                h.check('the distance of an unreachable node is infinite', isinstance(d, str) or d is None or d == float('inf'))
                continue
            tot = [SUM(cost[k] for k in p) for p in P[t]]
            h.check('a reachable node has a finite distance', not isinstance(d, str) and d is not None)
            h.check('the distance is the cost of a cheapest path', AND([d <= x for x in tot] + [OR([EQ(d, x) for x in tot])]))
            seq = [t]
            while seq[0] != s:
                if pred.get(seq[0]) is None or len(seq) > n or (pred[seq[0]], seq[0]) not in arc:
                    h.fail('predecessors lead back to the source over arcs of the graph')
                seq.insert(0, pred[seq[0]])
            h.check('the predecessors form a cheapest path', AND([SUM(cost[arc[x]] for x in zip(seq, seq[1:])) <= x for x in tot]))


D4 = [(0, 1), (1, 2), (2, 0), (1, 3), (3, 2), (0, 2), (3, 0), (2, 1)]


def scenarios(tier):
    S = []
    T = tier == 'thorough'

    def add(**k):
        S.append((label_correcting, k))
    add(n=1, arcs=[(0, 0)])
    add(n=2, arcs=all_arcs(2, True), names='big')
    add(n=3, arcs=all_arcs(3, True), names='str', pick=True)
    add(n=3, arcs=all_arcs(3), names='mixed', perm=[2, 0, 1], twice=True, fixed=4)
    add(n=3, arcs=all_arcs(3)[:5], names='str', fixed=3, den=4)
    add(n=4, arcs=D4, fixed=4, names='neg', const=[])
    add(n=4, arcs=all_arcs(4), fixed=0, const=[2, None, 3, -1, 2, 4, -3, 5, 1, None, 2, 0], names='str', pick=T)
    n, a = topo('back5')
    add(n=n, arcs=a, fixed=99, names='big')
    add(n=4, arcs=all_arcs(4), fixed=12, const=[] if T else [None, 2, None, None, 1, None, -1, None, 3, None, None, 2], names='big')
    n, a = topo('cyc6')
    add(n=n, arcs=a, fixed=99, perm=[3, 5, 0, 2, 4, 1], names='mixed')
    n, a = topo('ladder6')
    add(n=n, arcs=a, fixed=5 if T else 99, names='neg')
    n, a = topo('diamond5')
    add(n=n, arcs=a[::-1], fixed=4, names='int', perm=[4, 2, 3, 0, 1], pick=False)
    add(n=10, arcs=HUBC, fixed=99, names='ten', const=[9, 1, 3, -4, 2, 8, -2, 5, 1, None, 0, 2, 6, None], pick=False)
    add(n=10, arcs=WIDEC, fixed=99, names='ten', const=[3, 1, -4, 2, 1, None, 2, 6, 9, -1, None, 7, 3, 4, 1, None], pick=False)
    add(n=10, arcs=WIDEC[::-1], fixed=99, names='tens', const=[3, None, 4, 2, 1, -3, None, 6, 2, -1, 2, 7, None, 4, 1, 2], pick=False)
    again(S, 'C19', 'label_correcting', n=4, arcs=[(0, 1), (1, 2), (2, 3), (0, 2), (3, 1)], names='str', fixed=4, const=[3, -2, None, 5, 2], pick=False)
    othernames(S)
    return S
