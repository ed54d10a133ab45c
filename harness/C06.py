"""C06  Dijkstra search returns cheapest paths for non-negative costs."""
from .common import *

BOUNDS = {
    'quick': 'arc costs: all non-negative integers (unbounded), multiples of 1/4 up to 10^6 on 3 and 4 nodes; all graphs of 3 nodes with loops; subsets of the 9 arcs '
             'on 4 nodes; 8 fixed topologies of 4-7 nodes; tree and every destination, forward and reverse, repeated '
             'calls, five families of names',
    'thorough': 'as quick plus all digraphs of 4 nodes, subsets of 12 arcs on 5 nodes and of K5'}
OUTSIDE = 'negative costs (documented precondition of Dijkstra), other costs, larger graphs'



def dijkstra(h, directed, n, arcs, fixed=0, names='int', dest=False, reverse=False, twice=False, den=1, const=()):
    nm = namer(names)
    arcs = subset(h, [tuple(a) for a in arcs], fixed)
    cost = [const[k] if k < len(const) and const[k] is not None else h.num('c%d' % k, 0, den=den) for k in range(len(arcs))]
    g = build(h, directed, n, arcs, nm, cost=cost)
    idx = {nm(i): i for i in range(n)}
    walk = [(j, i) for i, j in arcs] if (reverse and directed) else arcs
    paths = simple_paths(n, walk, 0, directed)
    pc = {t: [SUM(cost[k] for k in p) for p in paths[t]] for t in range(n)}
    kind = {}
    for k, (i, j) in enumerate(walk):
        kind[i, j] = k
        if not directed:
            kind[j, i] = k
    kw = {'reverse': True} if reverse else {}

    def optimal(label, seq, t):
        h.check(label + ': path runs from source to destination', seq[0] == 0 and seq[-1] == t)
        steps = list(zip(seq, seq[1:]))
        if not all(s in kind for s in steps):
            h.fail(label + ': every step of the path is an arc of the graph')
        tot = SUM(cost[kind[s]] for s in steps)
        h.check(label + ': path cost is minimal', AND([tot <= p for p in pc[t]]))

    def one(tag):
        pred = h.call('search(Dijkstra)', g.search, nm(0), algo='Dijkstra', **kw)
        h.observe('pred' + tag, pred)
        p = {idx[a]: idx[b] for a, b in pred.items()}
        h.check('pred has exactly the nodes reachable from the source',
                set(p) | {0} == {t for t in range(n) if paths[t]} and 0 not in p)
        for t in p:
            seq = [t]
            while seq[0] != 0:
                if len(seq) > n or seq[0] not in p:
                    h.fail('predecessors lead back to the source')
                seq.insert(0, p[seq[0]])
            optimal('pred tree', seq, t)
    if not dest:
        one('')
        if twice:
            one('2')
    else:
        for t in range(n):
            r = h.call('search(Dijkstra, destination)', g.search, nm(0), destination=nm(t),
                       algo='Dijkstra', **kw)
            h.observe('path%d' % t, r)
            if not paths[t]:
                h.check('unreachable destination gives None', r is None)
            else:
                h.check('reachable destination gives a path', r is not None and len(r) > 0)
                if r:
                    optimal('destination', [idx[x] for x in r], t)


def scenarios(tier):
    S = []
    T = tier == 'thorough'

    def add(**k):
        S.append((dijkstra, k))
    for d in (True, False):
        A = all_arcs(3, True) if d else all_edges(3, True)
        add(directed=d, n=3, arcs=A, names='big')
        add(directed=d, n=3, arcs=A, dest=True, names='str')
        add(directed=d, n=3, arcs=A[::-1], names='mixed', twice=True)
        if d:
            add(directed=True, n=3, arcs=A, names='neg', reverse=True, dest=True)
    for d in (True, False):
        add(directed=d, n=3, arcs=all_edges(3), names='str', den=4)
        add(directed=d, n=4, arcs=[(0, 1), (0, 2), (1, 2), (1, 3), (2, 3)], fixed=3, dest=True, den=4)
    for t in ('diamond5', 'ladder6', 'cyc6', 'back5'):
        n, a = topo(t)
        add(directed=True, n=n, arcs=a, fixed=99)
        add(directed=True, n=n, arcs=a, fixed=99, dest=True, names='str')
        if t != 'ladder6' or T:
            add(directed=True, n=n, arcs=a, fixed=99, twice=True)
        add(directed=True, n=n, arcs=a[::-1], fixed=99, names='big')
        add(directed=True, n=n, arcs=[(j, i) for i, j in a], fixed=99, reverse=True, dest=t != 'back5')
        if t not in ('back5', 'ladder6') or T:
            add(directed=False, n=n, arcs=a, fixed=99)
    for t in ('path7', 'star6', 'two6', 'grid6'):
        n, a = topo(t)
        if t != 'star6' or T:
            add(directed=False, n=n, arcs=a, fixed=99, names='mixed')
        add(directed=False, n=n, arcs=a if T else a[:6], fixed=99, dest=True)
    add(directed=True, n=4, arcs=[a for a in all_arcs(4) if a[1] != 0], fixed=6)
    add(directed=True, n=4, arcs=[a for a in all_arcs(4) if a[1] != 0], fixed=4, dest=True, names='str')
    for d in (True, False):
        add(directed=d, n=10, arcs=HUBC, fixed=99, names='tens', const=[9, None, 3, 4, None, 8, 2, 5, 1, 3, 0, 2, None, 7])
        add(directed=d, n=10, arcs=WIDEC, fixed=99, names='ten', const=WCOST)
        add(directed=d, n=10, arcs=WIDEC[::-1], fixed=99, names='tens', const=[None, 1, 4, None, 2, 3, 1] + WCOST[:8] + [2], dest=True)
    if T:
        add(directed=True, n=4, arcs=all_arcs(4), dest=True)
        add(directed=True, n=5, arcs=[a for a in all_arcs(5) if a[1] != 0][:12], fixed=5)
        add(directed=False, n=5, arcs=all_edges(5), fixed=5, dest=True)
        add(directed=False, n=5, arcs=topo('wheel5')[1], fixed=99)
    for d in (True, False):
        for k, dest in enumerate((False, True)):
            again(S, 'C06', 'dijkstra', directed=d, n=5, arcs=[(0, 1), (1, 2), (2, 3), (0, 2), (3, 4)], names=('str', 'mixed')[k], fixed=3,
                  const=[3, 1, None, 5, 2], dest=dest)
    othernames(S)
    return S
