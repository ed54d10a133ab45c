"""C35  the result of an algorithm does not depend on what ran before."""
from .common import *
from .C31 import ALGOS
from .C33 import alike
from .flow import is_connected

BUDGET = 400000
BOUNDS = {
    'quick': 'every ordered pair of 20-30 algorithms of Graph, with one of five changes (none, an edge or node deleted, a node and edge added, an edge '
             'replaced) in between, on all subsets of a triangle (acyclic if directed) with non-negative costs (0..3 and capacities 0..2 if the second '
             'one computes a flow), on 4-node graphs with one or no symbolic arc and costs 0..1, and on cyclic digraphs of 3 nodes with a loop; every flow algorithm after one or two calls with other end points on 4 and 5 nodes, and every '
             'algorithm after two others on a 10-node graph, the end points symbolic; every algorithm on a graph of 4 nodes with colours, labels and values of the user on symbolically chosen nodes',
    'thorough': 'as quick with more symbolic arcs and costs 0..2 on 4 nodes'}
OUTSIDE = ('attributes that are not a documented result (colours, labels, counters), sequences of more than three algorithms, negative costs, '
           'dfs as the last one (it continues the search before it by design)')

ALGOS = dict(ALGOS, **{
    'search DFS to a destination': lambda g, s, t: g.search(s, destination=t, algo='DFS'),
    'floyd_warshall path': lambda g, s, t: path(g, s, t),
    'get_out_degrees': lambda g, s, t: g.get_out_degrees(),
    'max_flow_preflowpush SAP': lambda g, s, t: g.max_flow_preflowpush(s, t, algo='SAP'),
    'max_flow_preflowpush HighestLabel': lambda g, s, t: g.max_flow_preflowpush(s, t, algo='HighestLabel'),
})
del ALGOS['to_string'], ALGOS['repr']


def path(g, s, t):
    ok, d, nx = g.floyd_warshall()
    return g.floyd_warshall_get_path(d, nx, s, t)


GENERAL = ['search BFS', 'search DFS', 'search to a destination', 'search DFS to a destination', 'search UnweightedSPT', 'search reverse', 'search Dijkstra',
           'search Dijkstra to a destination', 'dfs', 'bfs', 'hamiltonian', 'get_degrees']
UNDIRECTED = GENERAL + ['search Prim', 'label_components', 'minimum_spanning_tree_prim', 'minimum_spanning_tree_kruskal', 'get_diameter']
DIRECTED = GENERAL + ['tarjan', 'label_strong_component', 'acyclic_shortest_path', 'max_flow DFS', 'max_flow BFS', 'max_flow_preflowpush',
                      'max_flow_preflowpush SAP', 'max_flow_preflowpush HighestLabel', 'find_feasible_flow',
                      'min_cost_flow simplex', 'min_cost_flow cycle canceling', 'floyd_warshall path', 'fifo_label_correcting',
                      'get_negative_cycle', 'page_rank', 'get_in_degrees', 'get_out_degrees']
# what an algorithm leaves on nodes and edges as (part of) its result
NODE = {'search BFS': 'distance', 'search UnweightedSPT': 'distance', 'search Dijkstra': 'distance', 'search reverse': 'distance',
        'bfs': 'distance', 'label_components': 'component', 'tarjan': 'component', 'label_strong_component': 'component'}


def result(h, g, what, s, t):
    """outcome, value and the attributes that belong to the result"""
    ok, r = h.outcome(what, (Exception,), ALGOS[what], g, s, t)
    out = [ok, r if ok else type(r).__name__, 'infeasible' in h.out]
    if what in NODE:
        out.append([g.get_node_attr(v, NODE[what]) for v in g.get_node_list()])
    if 'flow' in what and not (what == 'find_feasible_flow' and r is False) and 'infeasible' not in h.out:
        out.append([(e, g.edge_attr[e].get('flow')) for e in g.get_edge_list()])
    return out


def change(g, nm, n, arcs, k):
    """a change between the two runs"""
    if k == 1:
        g.del_edge((nm(arcs[0][0]), nm(arcs[0][1])))
    elif k == 2:
        g.del_node(nm(1))
    elif k == 3:
        g.add_node(nm(n), demand=0)
        g.add_edge(nm(0), nm(n), cost=1, capacity=1)
    elif k == 4:
        i, j = arcs[0]
        at = dict(g.edge_attr[nm(i), nm(j)])
        g.del_edge((nm(i), nm(j)))
        g.add_edge(nm(i), nm(j), cost=at['cost'], capacity=at['capacity'])


def after(h, what, directed, n, arcs, fixed=0, names='str', first=None, lo=0, hi=None, cap=2, changes=1, dem=1):
    arcs = subset(h, [tuple(a) for a in arcs], fixed)
    nm = namer(names)
    cost = [h.int('c%d' % k, lo, hi) for k in range(len(arcs))]
    u = [h.int('u%d' % k, 0, cap) if 'flow' in what else 2 for k in range(len(arcs))]
    if 'simplex' in what:
        h.assume(is_connected(n, arcs))

    def make():
        g = new_graph(directed)
        for i in range(n):
            g.add_node(nm(i), demand=dem if i == 0 else -dem if i == n - 1 else 0)
        for k, (i, j) in enumerate(arcs):
            g.add_edge(nm(i), nm(j), cost=cost[k], capacity=u[k])
        return g
    if first is None:
        first = DIRECTED if directed else UNDIRECTED
    first = [a for a in first if 'simplex' not in a or is_connected(n, arcs)]
    a = first[h.choice('first', len(first))]
    k = h.choice('change', changes) if arcs else 0
    s, t = nm(0), nm(n - 1)
    if k != 2:
        s, t = nm(h.choice('s', 2) * (n - 1)), nm(n - 2)
    g, f = make(), make()
    h.outcome(a, (Exception,), ALGOS[a], g, nm(0), nm(n - 1))
    change(g, nm, n, arcs, k)
    change(f, nm, n, arcs, k)
    if 'simplex' in what and k:
        h.assume(k == 4)
    x, y = result(h, g, what, s, t), result(h, f, what, s, t)
    h.check('%s ends in the same way after %s' % (what, a), x[0] == y[0] and x[2] == y[2])
    h.check('%s gives the same result after %s' % (what, a), alike(x[1], y[1]))
    h.check('%s leaves the same values after %s' % (what, a), alike(x[3:], y[3:]))
    h.observe('ok', x[0])


def series(h, directed, n, arcs, calls, last, fixed=0, names='str', cost=None, cap=None, ends=None, dem=1):
    """several calls with other end points, then the last one; costs/capacities: list, None is symbolic"""
    arcs = [tuple(a) for a in arcs]
    have = subset(h, arcs, fixed)
    nm = namer(names)
    data = []
    for k, a in enumerate(arcs):
        c = cost[k] if cost else 1
        u = cap[k] if cap else 2
        data.append((h.int('c%d' % k, 0, 3) if c is None else c, h.int('u%d' % k, 0, 3) if u is None else u))
    if any('simplex' in w for w in calls) or 'simplex' in last:
        h.assume(is_connected(n, have))

    def make():
        g = new_graph(directed)
        for i in range(n):
            g.add_node(nm(i), demand=dem if i == 0 else -dem if i == n - 1 else 0)
        for a, (c, u) in zip(arcs, data):
            if a in have:
                g.add_edge(nm(a[0]), nm(a[1]), cost=c, capacity=u)
        return g
    ends = ends or [(0, n - 2), (0, n - 1), (n - 2, n - 1), (n - 1, 0)]
    g, f = make(), make()
    for k, w in enumerate(calls):
        s, t = ends[h.choice('e%d' % k, len(ends))]
        h.outcome(w, (Exception,), ALGOS[w], g, nm(s), nm(t))
    s, t = ends[h.choice('e', 2)]
    x, y = result(h, g, last, nm(s), nm(t)), result(h, f, last, nm(s), nm(t))
    h.check('%s ends in the same way after %s' % (last, calls), x[0] == y[0] and x[2] == y[2])
    h.check('%s gives the same result after %s' % (last, calls), alike(x[1], y[1]))
    h.check('%s leaves the same values after %s' % (last, calls), alike(x[3:], y[3:]))
    h.observe('ok', x[0])


MARKS = dict(color='green', label='7', distance=0, component=3, depth=1, priority=0, index=2, lowlink=1, potential=5, excess=4,
             disc_time=None, pred=None)


def painted(h, what, directed, n, arcs, fixed=0, names='str', cost=None, cap=None, dem=1, ends=(0, -1)):
    """marks of the user (colours, labels and values of the kind algorithms leave) do not change what is found"""
    arcs = [tuple(a) for a in arcs]
    have = subset(h, arcs, fixed)
    if 'simplex' in what:
        h.assume(is_connected(n, have))
    nm = namer(names)
    data = [(h.int('c%d' % k, 0, 3) if (cost or [1] * 99)[k] is None else (cost or [1] * 99)[k],
             h.int('u%d' % k, 0, 3) if (cap or [2] * 99)[k] is None else (cap or [2] * 99)[k]) for k in range(len(arcs))]
    marked = [h.bool('m%d' % i) for i in range(n)]
    some = h.bool('edges')

    def make(paint):
        g = new_graph(directed)
        for i in range(n):
            g.add_node(nm(i), demand=dem if i == 0 else -dem if i == n - 1 else 0)
            if paint and marked[i]:
                for a, v in MARKS.items():
                    g.set_node_attr(nm(i), a, v)
        for a, (c, u) in zip(arcs, data):
            if a in have:
                g.add_edge(nm(a[0]), nm(a[1]), cost=c, capacity=u)
                if paint and some:
                    for b in ('color', 'label'):
                        g.set_edge_attr(nm(a[0]), nm(a[1]), b, MARKS[b])
        return g
    g, f = make(True), make(False)
    s, t = nm(ends[0] % n), nm(ends[1] % n)
    x, y = result(h, g, what, s, t), result(h, f, what, s, t)
    h.check('%s ends in the same way on a graph with marks' % what, x[0] == y[0] and x[2] == y[2])
    h.check('%s gives the same result on a graph with marks' % what, alike(x[1], y[1]))
    h.check('%s leaves the same values on a graph with marks' % what, alike(x[3:], y[3:]))
    h.observe('ok', x[0])


A5 = [(0, 1), (1, 2), (2, 3), (3, 4), (0, 2), (1, 3), (2, 4)]
LONG = WIDE[:12]


def scenarios(tier):
    S = []
    # one algorithm, several end points
    line = dict(directed=True, n=4, arcs=[(0, 1), (1, 2), (2, 3), (0, 2), (1, 3)], fixed=3)
    pre = ('max_flow_preflowpush', 'max_flow_preflowpush SAP', 'max_flow_preflowpush HighestLabel')
    fl = pre + ('max_flow DFS', 'max_flow BFS')
    for k, w in enumerate(fl):
        S.append((series, dict(line, calls=[w], last=w, cap=[2, 2, 9, 1, None], names=('str', 'int', 'mixed')[k % 3])))
        S.append((series, dict(line, calls=[w], last=w, cap=[2, None, 9, 1, 3], fixed=4, names=('str', 'int', 'mixed')[k % 3])))
        S.append((series, dict(line, calls=[fl[k - 1], w], last=w, cap=[2, 2, 9, 1, 3], fixed=4)))
        S.append((series, dict(directed=True, n=5, arcs=A5, calls=[w, fl[k - 2]], last=w, cap=[2, 3, 1, 9, 4, None, 2], fixed=6,
                               ends=[(0, 3), (0, 4), (1, 4)], names='neg')))
    # three algorithms on ten nodes
    for k, w in enumerate(DIRECTED):
        if w == 'dfs' or w == 'acyclic_shortest_path' or 'min_cost' in w:
            continue
        seq = [DIRECTED[(k * 5 + 3) % len(DIRECTED)], DIRECTED[(k * 7 + 4) % len(DIRECTED)]]
        seq = [a if 'min_cost' not in a and a != 'acyclic_shortest_path' else 'tarjan' for a in seq]
        S.append((series, dict(directed=True, n=10, arcs=LONG, calls=seq, last=w, cost=[3, 1, 4, 2, 1, 5, 2, 6, 9, 1, 2, 7],
                               cap=[3, 2, 1, 2, 2, 1, 2, 1, 2, 1, 1, 2], fixed=11, names=('ten', 'str', 'mixed')[k % 3],
                               ends=[(0, 4), (0, 6), (5, 7), (9, 1)])))
    for k, w in enumerate(UNDIRECTED):
        if w == 'dfs':
            continue
        seq = [UNDIRECTED[(k * 5 + 3) % len(UNDIRECTED)], UNDIRECTED[(k * 7 + 4) % len(UNDIRECTED)]]
        S.append((series, dict(directed=False, n=10, arcs=LONG, calls=seq, last=w, cost=[3, 1, 4, 2, 1, 5, 2, 6, 9, 1, 2, 7],
                               cap=[2] * 12, fixed=11, names=('ten', 'str', 'mixed')[k % 3], ends=[(0, 4), (0, 6), (5, 7), (9, 1)])))
    T = tier == 'thorough'
    a4 = [(0, 1), (1, 3), (2, 3), (0, 2), (1, 2)]
    fam = ('str', 'mixed', 'int', 'neg', 'digit', 'big')
    FLOW = [w for w in DIRECTED if 'flow' in w]
    for d, L in ((True, DIRECTED), (False, UNDIRECTED)):
        for k, what in enumerate(L):
            if what == 'dfs':           # continues the search that went before: this is what its counters are for
                continue
            flow = 'flow' in what
            S.append((after, dict(what=what, directed=d, n=3, arcs=[(0, 1), (1, 2), (0, 2)], names=fam[k % 6], hi=3 if flow else None,
                                  changes=5, fixed=0 if T or not flow else 2)))
            S.append((after, dict(what=what, directed=d, n=4, arcs=a4, names=fam[(k + 1) % 6], hi=1 if not T else 2, cap=1,
                                  fixed=(3 if d else 2) if T else 5 if flow else 4, changes=2,
                                  first=[w for w in L if 'min_cost' not in w or flow])))
            if d and not flow and what != 'acyclic_shortest_path':
                S.append((after, dict(what=what, directed=d, n=3, arcs=[(0, 1), (1, 2), (2, 0), (1, 0), (1, 1)], names=fam[(k + 2) % 6],
                                      hi=1, fixed=0 if T else 2, first=[w for w in L if w not in FLOW and w != 'acyclic_shortest_path'])))
    for d, L in ((True, DIRECTED), (False, UNDIRECTED)):
        for k, what in enumerate(L):
            S.append((painted, dict(what=what, directed=d, n=4, arcs=[(0, 1), (1, 2), (2, 3), (0, 2), (1, 3)], fixed=3, names=fam[k % 6],
                                    cost=[2, 1, None, 3, 1] if 'flow' in what or 'Dijkstra' in what or 'tree' in what else None)))
    othernames(S)
    return S
