"""C30  PageRank: the damped random surfer recurrence."""
from .common import *

BOUNDS = {
    'quick': 'every directed graph with 2-3 nodes (loops included) and symbolic subsets of the listed graphs with 4-10 nodes; '
             'one and two iterations with a symbolic rational damping factor; up to 40 iterations with fixed factors and '
             'thresholds; default parameters',
    'thorough': 'as quick with three symbolic iterations and larger subsets'}
OUTSIDE = 'rounding: values are compared with a tolerance of 1e-9 (symbolic factors are exact quotients)'

TOL = 1e-9


def recurrence(n, arcs, order, d, iters, delta):
    """nodes are updated in place in the order of the node list"""
    out = [sum(1 for a in arcs if a[0] == i) for i in range(n)]
    pr = [1.0 / max(n, 1)] * n
    runs = 0
    diff = None
    for _ in range(iters):
        runs += 1
        diff = 0
        for v in order:
            r = (1.0 - d) / n
            for i, j in arcs:
                if j == v:
                    r = r + d * pr[i] / out[i]
            diff = diff + abs(pr[v] - r)
            pr[v] = r
        if delta is not None and diff < delta:
            break
    return pr, runs, diff


def pagerank(h, n, arcs, fixed=0, names='int', damping='sym', iters=1, delta=0, grid=20, call='args', perm=None):
    arcs = subset(h, [tuple(a) for a in arcs], fixed)
    base = namer(names)
    perm = perm or list(range(n))
    nm = lambda i: base(perm[i])
    g = build(h, True, n, arcs, nm)
    d = h.int('d', 0, grid) / grid if damping == 'sym' else damping
    if call == 'default':
        d, iters, delta = 0.85, 100, 0.00001
        r = h.call('page_rank', g.page_rank)
    else:
        r = h.call('page_rank', g.page_rank, damping_factor=d, max_iterations=iters, min_delta=delta)
    h.check('page_rank has a value for every node and no other', r is not None and len(r) == n
            and all(nm(i) in r for i in range(n)))
    nl = h.call('get_node_list', g.get_node_list)
    inv = {nm(i): i for i in range(n)}
    pr, runs, diff = recurrence(n, arcs, [inv[x] for x in nl], d, iters, delta)
    for i in range(n):
        x = r[nm(i)]
        h.check('the value is that of the recurrence after the performed iterations',
                AND(x - pr[i] <= TOL, pr[i] - x <= TOL))
    h.observe('runs', runs if damping != 'sym' else 0)


def scenarios(tier):
    S = []
    T = tier == 'thorough'

    def add(**k):
        S.append((pagerank, k))
    for k, nm in enumerate(['int', 'big', 'str', 'digit', 'mixed', 'neg']):
        add(n=3, arcs=all_arcs(3), names=nm, iters=1)
        add(n=3, arcs=all_arcs(3), names=nm, damping=(0.85, 0.5, 1.0, 0.0, 0.3, 0.9)[k], iters=40, delta=1e-3)
        add(n=3, arcs=all_arcs(3), names=nm, damping=0.85, iters=k, delta=0.05)
    add(n=2, arcs=all_arcs(2, loops=True), iters=2)
    add(n=2, arcs=all_arcs(2, loops=True), iters=3 if T else 2, perm=[1, 0])
    add(n=3, arcs=all_arcs(3, loops=True), iters=1, names='str', fixed=0 if T else 2)
    add(n=3, arcs=all_arcs(3), iters=2, fixed=0, names='mixed')
    add(n=3, arcs=all_arcs(3), call='default')
    add(n=3, arcs=all_arcs(3), iters=0)
    for t in ('diamond5', 'ladder6', 'cyc6', 'back5'):
        n, a = topo(t)
        add(n=n, arcs=a, call='default', names='str', fixed=0 if T else max(0, len(a) - 7))
        add(n=n, arcs=a, iters=1, names='big', fixed=0 if T else max(0, len(a) - 6))
        add(n=n, arcs=a, damping=0.7, iters=3, delta=0.02, names='neg', fixed=0 if T else max(0, len(a) - 7))
    for k, nm in enumerate(['ten', 'tens', 'mixed']):
        add(n=10, arcs=WIDEC, call='default', names=nm, fixed=11)
        add(n=10, arcs=WIDEC, damping=(0.6, 0.9, 1.0)[k], iters=4 + k, delta=0.01, names=nm, fixed=12)
        add(n=10, arcs=WIDEC, iters=1, names=nm, fixed=12)
    hub = [(0, i) for i in range(1, 9)] + [(i, 9) for i in range(1, 9)] + [(9, 0), (3, 0)]
    add(n=10, arcs=hub, call='default', names='str', fixed=15)
    add(n=10, arcs=hub, iters=2, damping=0.9, names='neg', fixed=14)
    add(n=10, arcs=hub, iters=1, names='ten', fixed=15)
    add(n=1, arcs=[], iters=2)
    add(n=0, arcs=[], call='default')
    add(n=1, arcs=[(0, 0)], iters=2)
    add(n=4, arcs=all_arcs(4), call='default', fixed=0 if T else 5)
    again(S, 'C30', 'pagerank', 'edge', 'last', 'node', n=5, arcs=[(0, 1), (1, 2), (2, 0), (3, 4), (4, 3), (2, 3)], names='str', fixed=3, call='default')
    again(S, 'C30', 'pagerank', 'edge', 'last', 'node', n=5, arcs=[(0, 1), (1, 2), (2, 0), (3, 4), (4, 3), (2, 3)], names='int', fixed=4, iters=1)
    othernames(S)
    return S
