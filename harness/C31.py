"""C31  frame condition: algorithms leave the graph as it was."""
from .common import *
from .flow import NETS, network, feasible, is_connected

BOUNDS = {
    'quick': 'every algorithm of Graph (searches, spanning trees, components, flows, distances, degrees, diameter, text) on '
             'every graph with 3 nodes and on symbolic subsets of graphs with 4-5 nodes, with unbounded symbolic costs, '
             'capacities, demands and user attributes; on 10-node graphs with one symbolic arc, symbolic user attributes and one symbolic cost or capacity',
    'thorough': 'as quick with larger subsets and graphs'}
OUTSIDE = 'attributes an algorithm is documented to write (labels, colours, distances, flows, components), calls that raise'

KEEP = ('cost', 'capacity', 'demand', 'mine')


def snapshot(g, directed):
    nl = list(g.get_node_list())
    el = [tuple(e) for e in g.get_edge_list()]
    s = dict(nodes=nl, edges=el,
             nattr={v: {a: g.get_node_attr(v, a) for a in KEEP} for v in nl},
             eattr={e: {a: g.edge_attr[e].get(a) for a in KEEP} for e in el},
             nb={v: list(g.get_neighbors(v)) for v in nl})
    if directed:
        s['out'] = {v: list(g.get_out_neighbors(v)) for v in nl}
        s['in'] = {v: list(g.get_in_neighbors(v)) for v in nl}
    return s


def same(a, b):
    if a is None or b is None:
        return a is b
    return EQ(a, b)


def compare(h, what, before, after):
    h.check('%s keeps the nodes' % what, len(before['nodes']) == len(after['nodes'])
            and set(before['nodes']) == set(after['nodes']))
    h.check('%s keeps the edges' % what, len(before['edges']) == len(after['edges'])
            and set(before['edges']) == set(after['edges']))
    for k in ('nb', 'out', 'in'):
        if k in before:
            h.check('%s keeps the adjacency' % what, all(
                v in after[k] and sorted(map(repr, before[k][v])) == sorted(map(repr, after[k][v])) for v in before[k]))
    for k, t in (('nattr', 'node'), ('eattr', 'edge')):
        h.check('%s keeps costs, capacities, demands and user attributes of every %s' % (what, t),
                AND([same(x, after[k][v][a]) if v in after[k] else False
                     for v, d in before[k].items() for a, x in d.items()]))


ALGOS = {
    'search BFS': lambda g, s, t: g.search(s, algo='BFS'),
    'search DFS': lambda g, s, t: g.search(s, algo='DFS'),
    'search to a destination': lambda g, s, t: g.search(s, destination=t, algo='BFS'),
    'search Dijkstra': lambda g, s, t: g.search(s, algo='Dijkstra'),
    'search Dijkstra to a destination': lambda g, s, t: g.search(s, destination=t, algo='Dijkstra'),
    'search Prim': lambda g, s, t: g.search(s, algo='Prim'),
    'search UnweightedSPT': lambda g, s, t: g.search(s, algo='UnweightedSPT'),
    'search reverse': lambda g, s, t: g.search(s, algo='BFS', reverse=True),
    'dfs': lambda g, s, t: g.dfs(s),
    'bfs': lambda g, s, t: g.bfs(s),
    'hamiltonian': lambda g, s, t: g.hamiltonian(s, t),
    'label_components': lambda g, s, t: g.label_components(),
    'tarjan': lambda g, s, t: g.tarjan(),
    'label_strong_component': lambda g, s, t: g.label_strong_component(),
    'minimum_spanning_tree_prim': lambda g, s, t: g.minimum_spanning_tree_prim(s),
    'minimum_spanning_tree_kruskal': lambda g, s, t: g.minimum_spanning_tree_kruskal(),
    'acyclic_shortest_path': lambda g, s, t: g.acyclic_shortest_path(s),
    'max_flow DFS': lambda g, s, t: g.max_flow(s, t),
    'max_flow BFS': lambda g, s, t: g.max_flow(s, t, algo='BFS'),
    'max_flow_preflowpush': lambda g, s, t: g.max_flow_preflowpush(s, t),
    'find_feasible_flow': lambda g, s, t: g.find_feasible_flow(),
    'min_cost_flow simplex': lambda g, s, t: g.min_cost_flow(),
    'min_cost_flow cycle canceling': lambda g, s, t: g.min_cost_flow(algo='cycle_canceling'),
    'floyd_warshall': lambda g, s, t: g.floyd_warshall(),
    'fifo_label_correcting': lambda g, s, t: g.fifo_label_correcting(s),
    'get_negative_cycle': lambda g, s, t: g.get_negative_cycle(),
    'get_degrees': lambda g, s, t: g.get_degrees(),
    'get_in_degrees': lambda g, s, t: g.get_in_degrees(),
    'get_diameter': lambda g, s, t: g.get_diameter(),
    'page_rank': lambda g, s, t: g.page_rank(max_iterations=3),
    'to_string': lambda g, s, t: g.to_string(),
    'repr': lambda g, s, t: repr(g),
}
GENERAL = ('search BFS', 'search DFS', 'search to a destination', 'search UnweightedSPT', 'search reverse', 'dfs', 'bfs',
           'hamiltonian', 'get_degrees', 'to_string', 'repr')
COSTED = ('search Dijkstra', 'search Dijkstra to a destination')
UNDIRECTED = GENERAL + COSTED + ('search Prim', 'label_components', 'minimum_spanning_tree_prim',
                                 'minimum_spanning_tree_kruskal', 'get_diameter')
DIRECTED = GENERAL + COSTED + ('tarjan', 'label_strong_component', 'floyd_warshall', 'fifo_label_correcting',
                               'get_negative_cycle', 'page_rank', 'get_in_degrees')
FLOWS = ('max_flow DFS', 'max_flow BFS', 'max_flow_preflowpush')
DEMANDS = ('find_feasible_flow', 'min_cost_flow simplex', 'min_cost_flow cycle canceling')


def run(h, g, directed, what, s, t):
    before = snapshot(g, directed)
    ok, _ = h.outcome(what, (Exception,), ALGOS[what], g, s, t)
    if not ok:
        h.observe('raised', True)
        return
    compare(h, what, before, snapshot(g, directed))
    h.observe('ok', True)


def frame(h, directed, n, arcs, what, fixed=0, names='str', lo=None, hi=None):
    arcs = subset(h, [tuple(a) for a in arcs], fixed)
    nm = namer(names)
    costs = [h.int('c%d' % k, lo, hi) for k in range(len(arcs))]
    g = build(h, directed, n, arcs, nm, cost=costs,
              capacity=[h.int('u%d' % k, 0) for k in range(len(arcs))],
              mine=[h.int('m%d' % k) for k in range(len(arcs))],
              node_attr=lambda i: dict(demand=h.int('b%d' % i), mine=h.int('v%d' % i)))
    s = h.choice('s', n)
    t = h.choice('t', n) if 'destination' in what or what == 'hamiltonian' else n - 1
    run(h, g, directed, what, nm(s), nm(t))


def flowframe(h, n, arcs, what, fixed=None, names='str', hi=3, s=0, t=None):
    arcs = subset(h, [tuple(a) for a in arcs], len(arcs) if fixed is None else fixed)
    nm = namer(names)
    g = build(h, True, n, arcs, nm, capacity=[h.int('u%d' % k, 0, hi) for k in range(len(arcs))],
              cost=[h.int('c%d' % k) for k in range(len(arcs))], mine=[h.int('m%d' % k) for k in range(len(arcs))],
              node_attr=lambda i: dict(demand=h.int('b%d' % i), mine=h.int('v%d' % i)))
    run(h, g, True, what, nm(s), nm(n - 1 if t is None else t))


def wideframe(h, directed, n, arcs, what, names='ten', cost=None, cap=None, dem=None, fixed=None, ends=((0, 4), (5, 6), (9, 1))):
    """ten nodes; the attributes of the user are symbolic everywhere, the data of the algorithm only where None is given"""
    arcs = [tuple(a) for a in arcs]
    have = subset(h, arcs, len(arcs) - 1 if fixed is None else fixed)
    nm = namer(names)
    val = lambda tag, xs, k, lo: h.int('%s%d' % (tag, k), lo, lo + 6) if xs[k] is None else xs[k]
    g = new_graph(directed)
    for i in range(n):
        g.add_node(nm(i), mine=h.int('v%d' % i), demand=dem[i] if dem else h.int('b%d' % i))
    for k, (i, j) in enumerate(arcs):
        if (i, j) in have:
            g.add_edge(nm(i), nm(j), mine=h.int('m%d' % k), cost=val('c', cost, k, 0) if cost else h.int('c%d' % k),
                       capacity=val('u', cap, k, 0) if cap else h.int('u%d' % k))
    s, t = ends[h.choice('ends', len(ends))] if not dem else (0, 1)
    run(h, g, directed, what, nm(s), nm(t))


def demandframe(h, n, arcs, what, names='str', feas=True, ucon=(), dcon=(), ccon=(), fixed=None):
    arcs = subset(h, [tuple(a) for a in arcs], len(arcs) if fixed is None else fixed)
    if 'simplex' in what:
        h.assume(is_connected(n, arcs))
    g, nm, cap, cost, dem = network(h, n, arcs, names, cap_hi=6, dem_lim=6, ucon=ucon, dcon=dcon, ccon=ccon,
                                    zero_sum=feas)
    h.assume(feasible(n, arcs, cap, dem) if feas else NOT(feasible(n, arcs, cap, dem)))
    for k, (i, j) in enumerate(arcs):
        g.set_edge_attr(nm(i), nm(j), 'mine', h.int('m%d' % k))
    for i in range(n):
        g.set_node_attr(nm(i), 'mine', h.int('v%d' % i))
    run(h, g, True, what, nm(0), nm(n - 1))


def scenarios(tier):
    S = []
    T = tier == 'thorough'
    fam = ('str', 'mixed', 'int', 'neg', 'digit', 'big')
    for k, what in enumerate(UNDIRECTED):
        cost = what in COSTED or 'tree' in what or 'Prim' in what
        S.append((frame, dict(directed=False, n=3, arcs=all_edges(3), what=what, names=fam[k % 6], lo=0 if what in COSTED else None)))
        n, a = topo('k4')
        S.append((frame, dict(directed=False, n=n, arcs=a, what=what, names=fam[(k + 1) % 6], fixed=2 if not T else 0,
                              lo=0 if cost else None, hi=None if T or not cost else 2)))
    for k, what in enumerate(DIRECTED):
        cost = what in COSTED or what in ('floyd_warshall', 'fifo_label_correcting', 'get_negative_cycle')
        S.append((frame, dict(directed=True, n=3, arcs=all_arcs(3) if not cost or T else [(0, 1), (1, 2), (2, 0), (0, 2)],
                              what=what, names=fam[k % 6], lo=0 if what in COSTED else None)))
        n, a = topo('diamond5')
        S.append((frame, dict(directed=True, n=n, arcs=a, what=what, names=fam[(k + 1) % 6], fixed=3 if not T or cost else 0,
                              lo=0 if cost else None, hi=1 if cost else None)))
    S.append((frame, dict(directed=True, n=3, arcs=[(0, 1), (1, 2), (0, 2)], what='acyclic_shortest_path')))
    S.append((frame, dict(directed=True, n=4, arcs=all_edges(4), what='acyclic_shortest_path', fixed=3)))
    for k, what in enumerate(FLOWS):
        S.append((flowframe, dict(n=3, arcs=[(0, 1), (1, 2), (2, 0)], what=what, names=fam[k % 6], fixed=1, hi=2)))
        S.append((flowframe, dict(n=3, arcs=[(0, 1), (1, 2), (0, 2)], what=what, names=fam[k % 6], hi=None)))
        n, a = NETS['bridge4']
        S.append((flowframe, dict(n=n, arcs=a, what=what, names=fam[k + 1], hi=2)))
        S.append((flowframe, dict(n=n, arcs=a, what=what, names=fam[k + 1], hi=2, s=3, t=0)))
    for k, what in enumerate(DEMANDS):
        for feas in (True, False):
            S.append((demandframe, dict(n=3, arcs=[(0, 1), (1, 2), (0, 2)], what=what, names=fam[k], feas=feas,
                                        ccon=[] if T else [None, 1, None])))
            n, a = NETS['bridge4']
            S.append((demandframe, dict(n=n, arcs=a, what=what, names=fam[k + 3], feas=feas, ucon=[3, None, 2, None, 3],
                                        dcon=[None, 0, 0], ccon=[] if T else [None, 2, 1, None, -1])))
            S.append((demandframe, dict(n=2, arcs=[(0, 1)], what=what, names=fam[k + 2], feas=feas)))
    # ten nodes
    COST = [3, 1, 4, 2, 1, 5, 2, 6, 9, 1, 2, 7, 3, 4]
    CAP = [3, 2, 1, 2, 2, 1, 2, 1, 2, 1, 1, 2, 4, 2]
    DAG = [(0, 9), (0, 2), (9, 7), (2, 7), (7, 1), (1, 5), (5, 8), (7, 8), (8, 3), (3, 6), (8, 6), (6, 4), (3, 4)]
    for d, L in ((False, UNDIRECTED), (True, DIRECTED + FLOWS + DEMANDS)):
        for k, what in enumerate(L):
            flow = what in FLOWS + DEMANDS
            need = what in COSTED or what in DEMANDS or 'tree' in what or 'Prim' in what or what in (
                'floyd_warshall', 'fifo_label_correcting', 'get_negative_cycle')
            c = list(COST)
            if need:
                c[k % 9] = None
            u = list(CAP)
            if flow:
                u[k % 9 + 2] = None
            S.append((wideframe, dict(directed=d, n=10, arcs=WIDE if not what in DEMANDS else DAG, what=what, names=('ten', 'tens', 'str')[k % 3],
                                      cost=c if need else None, cap=u if flow else None,
                                      dem=[3, 0, 0, -1, -2, 0, 0, 0, 0, 0] if what in DEMANDS else None)))
    S.append((wideframe, dict(directed=True, n=10, arcs=DAG, what='acyclic_shortest_path', names='tens', cost=[None] + COST)))
    othernames(S)
    return S
