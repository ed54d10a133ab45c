"""C33  showing the steps of an algorithm does not change what it does."""
from .common import *
from .flow import NETS, network, feasible, is_connected
from symx import fakes
from . import dot

BOUNDS = {
    'quick': 'every search type, dfs, bfs, hamiltonian, label_components, both spanning-tree methods, both maximum-flow methods '
             'in all variants and minimum cost flow with three pivot rules / methods, shown through the display mode of the graph '
             'and through the display argument: every directed graph with 3 nodes, undirected graphs with 4 nodes (2 edges fixed), '
             'integer costs >= 0 (<= 2 with 4 nodes), capacities 0..3; every walk of every (binary) tree with 3 and 4 nodes (5 for expressions); flows on a triangle and a 4-node bridge; min-cost instances '
             'with up to 4 symbolic numbers, solvable and not',
    'thorough': 'as quick with all edges of the 4-node graphs symbolic, all binary trees with 4 nodes and one further number of every min-cost instance'}
OUTSIDE = ('the pictures made of the text (stand-ins record the text), colours, labels and line widths after a run, '
           'the display modes other than xdot (C32 covers what each of them hands on), algorithms without display argument')


SHOWN = ('color', 'label', 'fontcolor', 'style', 'pendwidth', 'penwidth')

ALGOS = {
    'search BFS': lambda g, s, t, k: g.search(s, algo='BFS', **k),
    'search DFS': lambda g, s, t, k: g.search(s, algo='DFS', **k),
    'search to a destination': lambda g, s, t, k: g.search(s, destination=t, algo='BFS', **k),
    'search Dijkstra': lambda g, s, t, k: g.search(s, algo='Dijkstra', **k),
    'search Dijkstra to a destination': lambda g, s, t, k: g.search(s, destination=t, algo='Dijkstra', **k),
    'search Prim': lambda g, s, t, k: g.search(s, algo='Prim', **k),
    'search UnweightedSPT': lambda g, s, t, k: g.search(s, algo='UnweightedSPT', **k),
    'search reverse': lambda g, s, t, k: g.search(s, algo='BFS', reverse=True, **k),
    'dfs': lambda g, s, t, k: g.dfs(s, **k),
    'bfs': lambda g, s, t, k: g.bfs(s, **k),
    'hamiltonian': lambda g, s, t, k: g.hamiltonian(s, t, **k),
    'label_components': lambda g, s, t, k: g.label_components(**k),
    'minimum_spanning_tree_prim': lambda g, s, t, k: g.minimum_spanning_tree_prim(s, **k),
    'minimum_spanning_tree_kruskal': lambda g, s, t, k: g.minimum_spanning_tree_kruskal(**k),
    'max_flow DFS': lambda g, s, t, k: g.max_flow(s, t, **k),
    'max_flow BFS': lambda g, s, t, k: g.max_flow(s, t, algo='BFS', **k),
    'max_flow_preflowpush': lambda g, s, t, k: g.max_flow_preflowpush(s, t, **k),
    'max_flow_preflowpush SAP': lambda g, s, t, k: g.max_flow_preflowpush(s, t, algo='SAP', **k),
    'max_flow_preflowpush HighestLabel': lambda g, s, t, k: g.max_flow_preflowpush(s, t, algo='HighestLabel', **k),
    'min_cost_flow simplex': lambda g, s, t, k: g.min_cost_flow(**k),
    'min_cost_flow simplex first eligible': lambda g, s, t, k: g.min_cost_flow(algo='simplex', pivot='first_eligible', **k),
    'min_cost_flow cycle canceling': lambda g, s, t, k: g.min_cost_flow(algo='cycle_canceling', **k),
}


def state(g):
    d = {}
    for v in g.get_node_list():
        for a, x in g.get_node(v).attr.items():
            if a not in SHOWN:
                d['node', v, a] = x
    for e in g.get_edge_list():
        for a, x in g.edge_attr[e].items():
            if a not in SHOWN:
                d['edge', e, a] = x
    return d


def alike(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    return EQ(a, b)


def shown(h, make, what, s, t, mode, steps=True):
    out = []
    for on in (False, True):
        g = make()
        del fakes.SEEN[:]
        k = {}
        if on and mode == 'mode':
            g.set_display_mode('xdot')
        if on and mode == 'arg':
            k['display'] = 'xdot'
        was = g.attr['display']
        ok, r = h.outcome(what, (Exception,), ALGOS[what], g, s, t, k)
        out.append((ok, r if ok else type(r).__name__, state(g)))
        if not on:
            h.check('nothing is shown when the display is off', not fakes.SEEN)
            continue
        if steps:
            h.check('%s shows its steps' % what, len(fakes.SEEN) > 0)
        for _, x in list(fakes.SEEN)[:60]:
            try:
                d = dot.parse(x)
            except dot.Bad:
                h.fail('every picture is made of a text in the DOT language')
            if 'kruskal' not in what:
                h.check('every picture shows the nodes and edges', len(d['nodes']) >= len(g.get_node_list())
                        and len(d['edges']) >= len(g.get_edge_list()))
        if mode == 'arg' or out[0][0]:
            h.check('the display mode of the graph is what it was', g.attr['display'] == was)
    a, b = out
    h.check('%s ends in the same way when it is shown' % what, a[0] == b[0])
    h.check('%s gives the same result when it is shown' % what, alike(a[1], b[1]))
    h.check('%s leaves the same graph when it is shown' % what, alike(a[2], b[2]))
    h.observe('ok', a[0])


def run(h, what, directed, n, arcs, fixed=0, names='str', mode='mode', lo=0, hi=None, pick=True, cap=3, con=()):
    arcs = subset(h, [tuple(a) for a in arcs], fixed)
    nm = namer(names)
    cost = [con[k] if k < len(con) and con[k] is not None else h.int('c%d' % k, lo, hi) for k in range(len(arcs))]
    u = [h.int('u%d' % k, 0, cap) for k in range(len(arcs))] if 'flow' in what else None

    def make():
        g = new_graph(directed)
        for i in range(n):
            g.add_node(nm(i))
        for k, (i, j) in enumerate(arcs):
            at = dict(cost=cost[k])
            if u:
                at['capacity'] = u[k]
            g.add_edge(nm(i), nm(j), **at)
        return g
    s = h.choice('s', n) if pick else 0
    t = h.choice('t', n) if pick and 'destination' in what else n - 1
    shown(h, make, what, nm(s), nm(t), mode)


def demands(h, what, n, arcs, mode='mode', names='str', ucon=(), dcon=(), ccon=(), feas=True):
    arcs = [tuple(a) for a in arcs]
    _, nm, cap, cost, dem = network(h, n, arcs, names, cap_hi=6, dem_lim=6, ucon=ucon, dcon=dcon, ccon=ccon, zero_sum=True)
    h.assume(feasible(n, arcs, cap, dem) if feas else NOT(feasible(n, arcs, cap, dem)))

    def make():
        g = new_graph(True)
        for i in range(n):
            g.add_node(nm(i), demand=dem[i])
        for k, (i, j) in enumerate(arcs):
            g.add_edge(nm(i), nm(j), capacity=cap[k], cost=cost[k])
        return g
    shown(h, make, what, nm(0), nm(n - 1), mode, steps=feas and 'simplex' in what)


WALKS = {
    'print_nodes': lambda g, k, o, p: g.print_nodes(order=('pre', 'in', 'post')[o], priority='LR'[p], **k),
    'dfs': lambda g, k, o, p: g.dfs(priority='LR'[p], **k),
    'bfs': lambda g, k, o, p: g.bfs(priority='LR'[p], **k),
    'traverse': lambda g, k, o, p: g.traverse(**k),
    'printexp': lambda g, k, o, p: g.printexp(**k),
    'postordereval': lambda g, k, o, p: g.postordereval(**k),
    'Tree.dfs': lambda g, k, o, p: g.dfs(**k),
    'Tree.bfs': lambda g, k, o, p: g.bfs(**k),
}


def walk(h, what, n, names='str', mode='mode', start=True):
    """a tree of n nodes of every shape; an expression for printexp and postordereval"""
    binary = not what.startswith('Tree')
    expr = what in ('printexp', 'postordereval')
    nm = namer(names)
    par = [None] + [h.choice('p%d' % i, i) for i in range(1, n)]
    side = [None] * n
    if binary:
        side = [None] + [h.choice('s%d' % i, 2) for i in range(1, n)]
        h.assume(len(set(zip(par, side))) == n)
    kids = [sum(p == i for p in par) for i in range(n)]
    if expr:
        h.assume(all(k != 1 for k in kids))
    lab = []
    for i in range(n):
        lab.append(i if not expr else h.int('x%d' % i) if not kids[i] else '+-*/'[h.choice('op%d' % i, 4)])
    root = h.choice('root', n) if start and not expr else 0
    order = h.choice('order', 3) if what == 'print_nodes' else 0
    pri = h.choice('pri', 2) if what in ('print_nodes', 'dfs', 'bfs') else 0

    def make():
        g = gp().BinaryTree(display='off') if binary else gp().Tree(display='off')
        for i in range(n):
            at = dict(label=lab[i]) if expr else {}
            if i == 0:
                g.add_root(nm(0), **at)
            else:
                (g.add_child if not binary else g.add_right_child if side[i] else g.add_left_child)(nm(i), nm(par[i]), **at)
        return g
    under = {root}
    for i in range(root + 1, n):
        if par[i] in under:
            under.add(i)
    out = []
    for on in (False, True):
        g = make()
        del fakes.SEEN[:]
        k = {} if expr else {'root': nm(root)}
        if on and mode == 'mode':
            g.set_display_mode('xdot')
        if on and mode == 'arg':
            k['display'] = 'xdot'
        was = g.attr['display']
        ok, r = h.outcome(what, (ZeroDivisionError,), WALKS[what], g, k, order, pri)
        out.append((ok, r, h.out, state(g)))
        if not on:
            h.check('nothing is shown when the display is off', not fakes.SEEN)
            continue
        seen = fakes.SEEN
        if what in ('dfs', 'bfs', 'traverse', 'Tree.dfs', 'Tree.bfs'):
            h.check('%s shows one picture for every node it visits' % what, len(seen) == len(under))
        elif n > 1 and len(under) > 1:
            h.check('%s shows its steps' % what, len(seen) > 0)
        lit = []
        for _, x in seen:
            try:
                d = dot.parse(x)
            except dot.Bad:
                h.fail('every picture is made of a text in the DOT language')
            h.check('every picture shows the nodes and edges', len(d['nodes']) == n and len(d['edges']) == n - 1)
            hot = [v for v, a, _ in d['nodes'] if a.get('color') == 'red']
            h.check('one node is highlighted at a time', len(hot) == 1)
            lit += hot
        if len(seen) == len(under) and what in ('dfs', 'bfs', 'traverse', 'Tree.dfs', 'Tree.bfs'):
            h.check('%s highlights every node it visits' % what, len(set(lit)) == len(under))
        h.check('the display mode of the graph is what it was', g.attr['display'] == was)
    a, b = out
    h.check('%s ends in the same way when it is shown' % what, a[0] == b[0])
    h.check('%s gives the same result when it is shown' % what, not a[0] or alike(a[1], b[1]))
    h.check('%s prints the same when it is shown' % what, a[2].split() == b[2].split())
    h.check('%s leaves the same tree when it is shown' % what, alike(a[3], b[3]))
    h.observe('under', sorted(under))


def scenarios(tier):
    S = []
    T = tier == 'thorough'
    fam = ('str', 'mixed', 'int', 'neg', 'digit', 'big')
    n = 0
    for what in ALGOS:
        if 'min_cost' in what:
            continue
        for mode in ('mode', 'arg'):
            n += 1
            if 'max_flow' in what:
                S.append((run, dict(what=what, directed=True, n=3, arcs=[(0, 1), (1, 2), (0, 2)], names=fam[n % 6], mode=mode, pick=False, hi=0)))
                S.append((run, dict(what=what, directed=True, n=4, arcs=NETS['bridge4'][1], fixed=4 if T else 5, names=fam[n % 6], mode=mode, pick=False, hi=0)))
            else:
                if what not in ('search Prim', 'label_components', 'minimum_spanning_tree_prim', 'minimum_spanning_tree_kruskal'):
                    S.append((run, dict(what=what, directed=True, n=3, arcs=all_arcs(3), names=fam[n % 6], mode=mode)))
                S.append((run, dict(what=what, directed=False, n=4, arcs=all_edges(4), fixed=0 if T else 2, names=fam[n % 6], mode=mode, pick=False, hi=2)))
    for k, what in enumerate(ALGOS):        # ten nodes
        if 'min_cost' in what:
            continue
        directed = what not in ('search Prim', 'label_components', 'minimum_spanning_tree_prim', 'minimum_spanning_tree_kruskal')
        flow = 'max_flow' in what
        S.append((run, dict(what=what, directed=directed, n=10, arcs=WIDE[:12] if flow else WIDE, names=('ten', 'tens')[k % 2],
                            mode=('mode', 'arg')[k % 2], pick=False, fixed=12, hi=3, con=WCOST if not flow else [2] * 12, cap=2)))
    for what in ALGOS:
        if 'min_cost' in what:
            for mode in ('mode', 'arg'):
                n += 1
                S.append((demands, dict(what=what, n=3, arcs=[(0, 1), (1, 2), (0, 2)], names=fam[n % 6], mode=mode, ccon=[None, 1, None])))
                S.append((demands, dict(what=what, n=3, arcs=[(0, 1), (1, 2), (0, 2)], names=fam[n % 6], mode=mode, ccon=[1, 1, 1], feas=False, dcon=[1, None])))
                S.append((demands, dict(what=what, n=4, arcs=NETS['bridge4'][1], names=fam[n % 6], mode=mode, ucon=[3, None, 2, None, None if T else 3], dcon=[2, 0, 0],
                                        ccon=[None, 2, 1, None, -1])))
    for what in WALKS:
        for mode in ('mode', 'arg'):
            if mode == 'arg' and what in ('Tree.dfs', 'Tree.bfs', 'printexp', 'postordereval'):
                continue    # the argument does not change the mode there
            n += 1
            S.append((walk, dict(what=what, n=5 if what in ('printexp', 'postordereval') else 4 if T or what.startswith('Tree') else 3, names=fam[n % 6], mode=mode)))
    othernames(S)
    return S
