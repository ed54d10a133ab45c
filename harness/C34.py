"""C34  a request outside the domain of an operation is refused, not answered."""
from .common import *
from .flow import NETS, network, feasible, is_connected, check_demands, check_optimal

BOUNDS = {
    'quick': 'every graph with 3 nodes (loops included where they are allowed) and symbolic subsets of graphs with 4 and 10 nodes, both types, '
             'with unbounded symbolic costs and attribute values: unknown algorithm, pivot and node selection names, algorithms '
             'of the other graph type, a negative cycle asked for where there is none (every element), an existing cluster name, '
             'attributes and neighbours of items that are not there, every query of an item next to one that looks alike',
    'thorough': 'as quick with larger subsets'}
OUTSIDE = 'requests the documentation does not exclude; the wording of messages; unknown algorithms of the maximum flow methods'

WORDS = ('nothing', '', 'bfs', 'simplex ', None)


def state(g):
    return dict(nodes=list(g.get_node_list()), edges=list(g.get_edge_list()),
                nattr={v: dict(g.get_node(v).attr) for v in g.get_node_list()},
                eattr={e: dict(g.edge_attr[e]) for e in g.get_edge_list()},
                nb={v: list(g.get_neighbors(v)) for v in g.get_node_list()},
                attr=dict(g.attr), cluster={k: dict(v) for k, v in g.cluster.items()})


def alike(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and AND([alike(a[k], b[k]) for k in a])
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and AND([alike(x, y) for x, y in zip(a, b)])
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    return EQ(a, b)


def unchanged(h, g, before, what):
    h.check('%s changes nothing' % what, alike(before, state(g)))


def build(h, directed, n, arcs, fixed, names, flow=False):
    arcs = subset(h, [tuple(a) for a in arcs], fixed)
    nm = namer(names)
    g = new_graph(directed)
    for i in range(n):
        g.add_node(nm(i), mine=h.int('m%d' % i), **(dict(demand=0) if flow else {}))
    cost = [h.int('c%d' % k) for k in range(len(arcs))]
    for k, (i, j) in enumerate(arcs):
        g.add_edge(nm(i), nm(j), cost=cost[k], **(dict(capacity=h.int('u%d' % k, 0)) if flow else {}))
    return g, nm, arcs, cost


def refused(h, g, what, ok, r):
    """an exception, or a message and no answer"""
    h.check('%s is refused' % what, not ok or (r is None and h.out.strip() != ''))


def words(h, what, directed, n, arcs, names='str', fixed=0):
    g, nm, arcs, cost = build(h, directed, n, arcs, fixed, names, flow='flow' in what)
    w = WORDS[h.choice('word', len(WORDS))]
    s, t = nm(h.choice('s', n)), nm(n - 1)
    before = state(g)
    if what == 'search':
        ok, r = h.outcome(what, (Exception,), g.search, s, algo=w)
    elif what == 'search to a destination':
        ok, r = h.outcome(what, (Exception,), g.search, s, destination=t, algo=w)
    else:
        ok, r = h.outcome(what, (Exception,), g.min_cost_flow, algo=w)
    refused(h, g, '%s with an unknown algorithm' % what, ok, r)
    unchanged(h, g, before, '%s with an unknown algorithm' % what)
    h.observe('ok', ok)


WRONG = {
    'label_components of a directed graph': (True, lambda g: g.label_components()),
    'the residual graph of an undirected graph': (False, lambda g: g.create_residual_graph()),
    'in-degrees of an undirected graph': (False, lambda g: g.get_in_degrees()),
    'out-degrees of an undirected graph': (False, lambda g: g.get_out_degrees()),
    'the diameter of a directed graph': (True, lambda g: g.get_diameter()),
}


def wrong_type(h, what, n, arcs, names='str', fixed=0):
    directed, f = WRONG[what]
    g, nm, arcs, cost = build(h, directed, n, arcs, fixed, names, flow=True)
    for k, (i, j) in enumerate(arcs):
        g.set_edge_attr(nm(i), nm(j), 'flow', 0)
    before = state(g)
    ok, r = h.outcome(what, (Exception,), f, g)
    refused(h, g, what, ok, r)
    unchanged(h, g, before, what)
    h.observe('ok', ok)


def cycle(h, n, arcs, names='str', fixed=0):
    """no negative cycle (through an element): nothing may be returned"""
    g, nm, arcs, cost = build(h, True, n, arcs, fixed, names)
    ok, d, nx = h.call('floyd_warshall', g.floyd_warshall)
    which = h.choice('element', n + 1)
    kw = {} if which == n else dict(element=nm(which))
    neg = [d[nm(i), nm(i)] < 0 for i in range(n)]
    some = OR(neg) if which == n else neg[which]
    before = state(g)
    good, r = h.outcome('floyd_warshall_get_cycle', (Exception,), g.floyd_warshall_get_cycle, d, nx, **kw)
    h.check('a negative cycle is refused exactly if there is none', some if good else NOT(some))
    unchanged(h, g, before, 'floyd_warshall_get_cycle')
    h.observe('good', good)


def cluster(h, directed, n, arcs, names='str', fixed=0):
    g, nm, arcs, cost = build(h, directed, n, arcs, fixed, names)
    h.call('create_cluster', g.create_cluster, [nm(0)], {'name': 'x', 'label': 'one'})
    before = state(g)
    members = [nm(i) for i in range(n) if h.bool('in%d' % i)]
    attrs = {'name': 'x', 'label': 'two'}
    h.raises('an existing cluster name is rejected', Exception, g.create_cluster, members, attrs, {'color': 'red'})
    unchanged(h, g, before, 'a rejected create_cluster')
    h.check('the argument is not changed', attrs == {'name': 'x', 'label': 'two'})
    h.call('create_cluster', g.create_cluster, members, {'name': 'y'})
    h.check('another name is accepted', set(g.cluster) == {'x', 'y'})


def missing(h, directed, n, arcs, names='str', fixed=0):
    """queries of items that are not there"""
    g, nm, arcs, cost = build(h, directed, n, arcs, fixed, names)
    out = [v for v in (nm(n), '0', 0, '1', 1, 'a', '', -1, '-1') if not any(v == nm(i) for i in range(n))]
    x = out[h.choice('out', len(out))]
    a, b = nm(h.choice('a', n)), nm(h.choice('b', n))
    before = state(g)
    h.check('get_node of a missing node is None', h.call('get_node', g.get_node, x) is None)
    h.check('a missing node is not contained', not h.call('in', g.__contains__, x))
    for y in (a, x):
        for e in ((x, y), (y, x)):
            h.check('no edge at a missing node', not h.call('check_edge', g.check_edge, *e))
            h.raises('the attributes of a missing edge cannot be read', Exception, g.get_edge_attr, e[0], e[1], 'cost')
            h.raises('the cost of a missing edge cannot be read', Exception, g.get_edge_cost, e)
    h.raises('a missing node has no neighbours', Exception, g.get_neighbors, x)
    h.raises('a missing node has no attributes', Exception, g.get_node_attr, x, 'mine')
    h.raises('a missing node has no attributes to set', Exception, g.set_node_attr, x, 'mine', 1)
    if not h.call('check_edge', g.check_edge, a, b):
        h.raises('the attributes of a missing edge cannot be read', Exception, g.get_edge_attr, a, b, 'cost')
        h.raises('the attributes of a missing edge cannot be set', Exception, g.set_edge_attr, a, b, 'cost', 1)
    else:
        h.raises('a missing attribute of an edge cannot be read', Exception, g.get_edge_attr, a, b, 'nothing')
    h.check('a missing attribute of a node is None', h.call('get_node_attr', g.get_node_attr, a, 'nothing') is None)
    unchanged(h, g, before, 'asking for missing items')


def pivot(h, n, arcs, ucon=(), dcon=(), ccon=(), names='str'):
    g, nm, cap, cost, dem = network(h, n, [tuple(a) for a in arcs], names, cap_hi=6, dem_lim=6, ucon=ucon, dcon=dcon, ccon=ccon)
    arcs = [tuple(a) for a in arcs]
    h.assume(feasible(n, arcs, cap, dem))
    w = WORDS[h.choice('word', len(WORDS))]
    ok, r = h.outcome('min_cost_flow', (Exception,), g.min_cost_flow, pivot=w)
    if ok:
        # no pivot was needed
        flow = [g.get_edge_attr(nm(i), nm(j), 'flow') for i, j in arcs]
        check_demands(h, n, arcs, cap, dem, flow)
        check_optimal(h, n, arcs, cap, cost, flow)
    else:
        h.check('no auxiliary node is left', len(g.get_node_list()) == n and len(g.get_edge_list()) == len(arcs))
    h.observe('ok', ok)


def generator(h, what, directed, n):
    g = new_graph(directed)
    kw = dict(degree_range=None, density=None)
    if what == 'selection':
        kw = dict(degree_range=(1, 2), node_selection=('nothing', 'Random', '')[h.choice('word', 3)])
    eu = what == 'selection' or h.bool('Euclidean')
    ok, r = h.outcome('random', (Exception,), g.random, numnodes=n, Euclidean=eu, seedInput=h.choice('seed', 3), **kw)
    refused(h, g, 'random without a rule for the edges', ok, r)
    h.check('no edge is added', g.get_edge_num() == 0)
    h.observe('ok', ok)


def scenarios(tier):
    S = []
    T = tier == 'thorough'
    fam = ('str', 'mixed', 'int', 'neg', 'digit', 'big')
    L3 = [(0, 0)] + all_arcs(3)
    a4 = [(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)]
    for d in (True, False):
        for k, what in enumerate(('search', 'search to a destination', 'min cost flow')):
            S.append((words, dict(what=what, directed=d, n=3, arcs=all_arcs(3) if d else all_edges(3), names=fam[k + 3 * d], fixed=0 if T else 2)))
            S.append((words, dict(what=what, directed=d, n=4, arcs=a4, names=fam[5 - k], fixed=2 if T else 4)))
        S.append((cluster, dict(directed=d, n=3, arcs=all_arcs(3)[:4] if d else all_edges(3), names=fam[1 + d])))
        S.append((cluster, dict(directed=d, n=4, arcs=a4, names=fam[4 + d], fixed=0 if T else 3)))
        for k in range(6):
            S.append((missing, dict(directed=d, n=3, arcs=[(0, 0), (0, 1), (1, 2), (2, 0)], names=fam[k], fixed=0 if T else 1)))
        S.append((missing, dict(directed=d, n=4, arcs=a4, names='str')))
        for nk in ('ten', 'tens'):
            S.append((missing, dict(directed=d, n=10, arcs=WIDE[:12], names=nk, fixed=12)))
            S.append((cluster, dict(directed=d, n=10, arcs=WIDE[:12], names=nk, fixed=12)))
            S.append((words, dict(what='search', directed=d, n=10, arcs=WIDE[:12], names=nk, fixed=12)))
        for n in (2, 3):
            S.append((generator, dict(what='rule', directed=d, n=n)))
            S.append((generator, dict(what='selection', directed=d, n=n)))
    for k, what in enumerate(sorted(WRONG)):
        d = WRONG[what][0]
        S.append((wrong_type, dict(what=what, n=3, arcs=L3 if d else all_edges(3), names=fam[k % 6], fixed=0 if T else 1)))
        S.append((wrong_type, dict(what=what, n=4, arcs=a4, names=fam[(k + 2) % 6])))
    S.append((cycle, dict(n=2, arcs=[(0, 0), (0, 1), (1, 0), (1, 1)], names='mixed')))
    S.append((cycle, dict(n=3, arcs=all_arcs(3), names='str', fixed=0 if T else 4)))
    S.append((cycle, dict(n=3, arcs=[(0, 1), (1, 2), (2, 0), (1, 1)], names='neg')))
    S.append((cycle, dict(n=3, arcs=[(0, 1), (1, 2), (2, 1), (0, 0)], names='int')))
    S.append((cycle, dict(n=3, arcs=[(0, 1), (1, 2), (2, 1), (0, 0)], names='empty')))
    S.append((pivot, dict(n=3, arcs=[(0, 1), (1, 2), (0, 2)], names='str', ccon=[None, 1, None])))
    S.append((pivot, dict(n=4, arcs=NETS['bridge4'][1], names='mixed', ucon=[3, None, 2, None, 3], dcon=[2, 0, 0], ccon=[None, 2, 1, None, -1])))
    othernames(S)
    return S
