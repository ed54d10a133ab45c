"""C12  acyclic_shortest_path: cheapest paths in an acyclic graph, any costs."""
from .common import *

BOUNDS = {
    'quick': 'arc costs: all integers, multiples of 1/4 in -10^6..10^6 on 4 nodes; all acyclic graphs on 4 nodes under five insertion orders and every source; '
             'subsets of 8-9 candidate arcs on 5-6 nodes; tree and every destination; repeated calls',
    'thorough': 'as quick plus all acyclic graphs on 5 nodes'}
OUTSIDE = 'graphs with directed cycles (out of the domain of the algorithm); other costs'


def acyclic(h, n, arcs, fixed=0, names='int', perm=None, pick=False, dest=False, twice=False, changed=False, den=1, const=()):
    base = namer(names)
    perm = perm or list(range(n))
    nm = lambda i: base(perm[i])
    arcs = subset(h, [tuple(a) for a in arcs], fixed)
    cost = [const[k] if k < len(const) and const[k] is not None else h.num('c%d' % k, den=den) for k in range(len(arcs))]
    g = new_graph(True)
    for i in sorted(range(n), key=lambda i: perm[i]):
        g.add_node(nm(i))
    for k, (i, j) in enumerate(arcs):
        g.add_edge(nm(i), nm(j), cost=cost[k])
    idx = {nm(i): i for i in range(n)}
    arc = {a: k for k, a in enumerate(arcs)}
    s = h.choice('source', n) if pick else 0
    if changed:
        s = 0
        h.call('acyclic_shortest_path', g.acyclic_shortest_path, nm(0))
        for k in range(len(arcs)):
            if k < 2:
                cost[k] = h.int('new%d' % k)
                g.set_edge_attr(nm(arcs[k][0]), nm(arcs[k][1]), 'cost', cost[k])
        s = h.choice('source', n)
    P = simple_paths(n, arcs, s)

    def optimal(label, seq, t):
        st = list(zip(seq, seq[1:]))
        if seq[0] != s or seq[-1] != t or not all(x in arc for x in st):
            h.fail(label + ': the path is a path of the graph from source to destination')
        tot = SUM(cost[arc[x]] for x in st)
        h.check(label + ': no path is cheaper', AND([tot <= SUM(cost[k] for k in p) for p in P[t]]))

    for rep in range(2 if twice else 1):
        if dest:
            for t in range(n):
                if P[t]:
                    r = h.call('acyclic_shortest_path(destination)', g.acyclic_shortest_path, nm(s), nm(t))
                    h.observe('path%d.%d' % (rep, t), r)
                    h.check('a path is returned', isinstance(r, list) and len(r) > 0)
                    optimal('destination', [idx[x] for x in r], t)
            continue
        p = h.call('acyclic_shortest_path', g.acyclic_shortest_path, nm(s))
        h.observe('pred%d' % rep, p)
        pred = {idx[a]: idx[b] for a, b in p.items()}
        h.check('predecessors exist for exactly the reachable nodes except the source',
                set(pred) == {t for t in range(n) if P[t]} - {s})
        for t in sorted(pred):
            seq = [t]
            while seq[0] != s:
                if seq[0] not in pred or len(seq) > n:
                    h.fail('predecessors lead back to the source')
                seq.insert(0, pred[seq[0]])
            optimal('tree', seq, t)


def scenarios(tier):
    S = []

    def add(**k):
        S.append((acyclic, k))
    A4 = [(i, j) for i in range(4) for j in range(i + 1, 4)]
    for nk, perm in (('int', None), ('big', [3, 2, 1, 0]), ('str', [2, 0, 3, 1]), ('mixed', [1, 3, 0, 2]), ('neg', [3, 0, 1, 2])):
        add(n=4, arcs=A4, names=nk, perm=perm, pick=True)
        add(n=4, arcs=A4[::-1], names=nk, perm=perm, dest=True, pick=nk == 'str')
    add(n=4, arcs=A4, twice=True, names='int')
    add(n=4, arcs=A4, fixed=3, den=4, names='str')
    add(n=4, arcs=A4, fixed=3, den=4, dest=True, perm=[2, 1, 3, 0])
    add(n=4, arcs=A4, changed=True, fixed=3)
    B5 = [(0, 1), (0, 2), (1, 2), (2, 3), (1, 3), (3, 4), (0, 4), (2, 4)]
    add(n=5, arcs=B5, fixed=4, perm=[4, 2, 0, 1, 3])
    add(n=5, arcs=B5[::-1], fixed=3, dest=True, names='str', perm=[1, 4, 0, 3, 2])
    B6 = [(0, 1), (0, 2), (1, 3), (2, 3), (3, 4), (3, 5), (4, 5), (1, 4)]
    add(n=6, arcs=B6, fixed=6, perm=[5, 3, 1, 0, 2, 4])
    add(n=10, arcs=HUB, fixed=10, names='tens', const=[9, None, -3, 4, 1, 8, -2, 5, 1, 3, 0, 2, None])
    add(n=10, arcs=WIDE, fixed=10, names='ten', const=[3, None, -4, 2, 1, -5, 2, 6, None, 4, -1, 2])
    add(n=10, arcs=WIDE[::-1], fixed=99, names='tens', dest=True, perm=[3, 7, 1, 9, 0, 5, 2, 8, 6, 4], const=[None, -1, 4, None, 2, 3, 1, None, 2, -6, 1, None, 3])
    if tier == 'thorough':
        A5 = [(i, j) for i in range(5) for j in range(i + 1, 5)]
        add(n=5, arcs=A5, fixed=3)
        add(n=5, arcs=A5, fixed=4, dest=True, perm=[4, 3, 2, 1, 0], names='str')
        add(n=6, arcs=B6[::-1] + [(2, 5)], names='big', pick=True)
    for dest in (False, True):
        again(S, 'C12', 'acyclic', n=5, arcs=[(0, 1), (1, 2), (2, 3), (0, 2), (3, 4)], names='str', fixed=4, const=[3, -1, None, 5, 2], dest=dest)
    othernames(S)
    return S
