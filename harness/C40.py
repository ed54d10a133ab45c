"""C40  the labels and colours a run leaves tell what it found."""
from .flow import *
from symx import fakes

BOUNDS = {
    'quick': 'every graph with 3 nodes (loops included) and symbolic subsets of graphs with 4-10 nodes, both types, every start, '
             'destination and component number; a second run on the same graph; costs: integers (>= 0 for Dijkstra); capacities 0..9999 '
             'and multiples of 1/4; maximum flows on networks with 3-10 nodes, minimum cost flows with up to 5 symbolic numbers',
    'thorough': 'as quick with more symbolic arcs, capacities and costs'}
OUTSIDE = ('marks between the steps of a run (C33 looks at the number and syntax of the pictures), marks of cycle canceling, '
           'containers given by the caller, how the back ends draw a colour')


def colour(g, v):
    return g.get_node_attr(v, 'color')


def tree_edges(pred, nm, n):
    inv = {nm(i): i for i in range(n)}
    return [(inv[p], inv[v]) for v, p in pred.items() if p is not None]


def last_picture(h, g):
    h.check('the last picture shows these marks', bool(fakes.SEEN) and fakes.SEEN[-1][1] == g.to_string())


def make(directed, n, arcs, nm, **attrs):
    g = new_graph(directed)
    for i in range(n):
        g.add_node(nm(i))
    for k, (i, j) in enumerate(arcs):
        g.add_edge(nm(i), nm(j), **{a: x[k] for a, x in attrs.items()})
    return g


def green(h, g, nm, arcs, tree, directed, only=None):
    """exactly the tree edges are green, no other edge is left marked"""
    for i, j in arcs:
        if only is not None and i not in only:
            continue
        on = (i, j) in tree or not directed and (j, i) in tree
        c = g.get_edge_attr(nm(i), nm(j), 'color') if 'color' in g.edge_attr[nm(i), nm(j)] else None
        h.check('an edge is green exactly if it is an edge of the tree', (c == 'green') == on)
        h.check('no edge keeps a mark of a step', c in ('green', 'black', None))


def search(h, algo, directed, n, arcs, names='int', fixed=0, reverse=False, comp=False, again=False, const=(), shown=False):
    arcs = subset(h, [tuple(a) for a in arcs], fixed)
    nm = namer(names)
    cost = [const[k] if k < len(const) and const[k] is not None else h.int('c%d' % k, 0) for k in range(len(arcs))] \
        if algo in ('Dijkstra', 'Prim') else [1] * len(arcs)
    g = make(directed, n, arcs, nm, cost=cost)
    walk = [(j, i) for i, j in arcs] if reverse and directed else arcs
    of = {}
    for k, (i, j) in enumerate(arcs):
        of[i, j] = cost[k]
        if not directed:
            of[j, i] = cost[k]
    if shown:
        g.set_display_mode('xdot')
    parts = [None] * n
    for rnd in range(1 + again):
        s = h.choice('s%d' % rnd, n)
        k = {}
        if comp:
            k['component'] = h.choice('component%d' % rnd, 2)
        if reverse:
            k['reverse'] = True
        del fakes.SEEN[:]
        pred = h.call('search', g.search, nm(s), algo=algo, **k)
        idx = {nm(i): i for i in range(n)}
        got = {idx[v] for v in pred} | {s}
        tree = tree_edges(pred, nm, n)
        up = {v: p for p, v in tree}
        R = reach(n, walk, s, directed)
        lev = levels(n, walk, s, directed)
        for v in range(n):
            c, l = colour(g, nm(v)), g.get_node_attr(nm(v), 'label')
            h.check('a node is green exactly if it was reached', c == ('green' if v in R else 'black'))
            if comp and v in R:
                parts[v] = k['component']
            if v not in R:
                want = '-' if not comp or parts[v] is None else parts[v]
                h.check('a node that was not reached keeps no mark of this search', str(l) == str(want))
            elif algo == 'Dijkstra':
                d, w = 0, v
                while w != s:
                    d, w = d + (of[up[w], w] if not reverse or not directed else of[w, up[w]]), up[w]
                h.check('the label is the distance', EQ(l, d))
            elif algo == 'Prim':
                h.check('the label is the cost of the edge to the tree',
                        EQ(l, 0 if v == s else of[up[v], v] if not reverse or not directed else of[v, up[v]]))
            elif comp:
                h.check('the label is the number of the component', l == k['component'])
            elif algo == 'DFS':
                d, w = 0, v
                while w != s:
                    d, w = d + 1, up[w]
                h.check('the label is the depth in the tree', str(l) == str(d))
            else:
                h.check('the label is the distance', str(l) == str(lev[v]))
        h.check('the tree spans what was reached', got == set(R))
        green(h, g, nm, arcs, [(b, a) for a, b in tree] if reverse and directed else tree, directed)
        if shown:
            last_picture(h, g)
        h.observe('tree%d' % rnd, sorted(tree))


def towards(h, algo, directed, n, arcs, names='int', fixed=0, const=()):
    """with a destination: the edges of the path are green"""
    arcs = subset(h, [tuple(a) for a in arcs], fixed)
    nm = namer(names)
    cost = [const[k] if k < len(const) and const[k] is not None else h.int('c%d' % k, 0) for k in range(len(arcs))] \
        if algo == 'Dijkstra' else [1] * len(arcs)
    g = make(directed, n, arcs, nm, cost=cost)
    s, t = h.choice('s', n), h.choice('t', n)
    path = h.call('search', g.search, nm(s), nm(t), algo=algo)
    if path is not None and s != t:
        h.check('the edges of the path are green',
                all(g.get_edge_attr(a, b, 'color') == 'green' for a, b in zip(path, path[1:])))
        h.check('the destination is blue', colour(g, nm(t)) == 'blue')
        h.check('the nodes of the path before it are green', all(colour(g, v) == 'green' for v in path[:-1]))
    h.observe('path', path)


def parts(h, n, arcs, names='int', fixed=0, shown=False):
    arcs = subset(h, [tuple(a) for a in arcs], fixed)
    nm = namer(names)
    g = make(False, n, arcs, nm)
    if shown:
        g.set_display_mode('xdot')
    for rnd in range(2):
        del fakes.SEEN[:]
        h.call('label_components', g.label_components)
        lab = components(n, arcs)
        for a in range(n):
            h.check('the label of every node is the number of its component',
                    g.get_node_attr(nm(a), 'label') == g.get_node_attr(nm(a), 'component'))
            for b in range(a):
                h.check('two nodes show the same label exactly if they are in one component',
                        (g.get_node_attr(nm(a), 'label') == g.get_node_attr(nm(b), 'label')) == (lab[a] == lab[b]))
        if shown and n:
            last_picture(h, g)
        if arcs:
            a = arcs.pop()
            g.del_edge((nm(a[0]), nm(a[1])))


def dfs(h, directed, n, arcs, names='int', fixed=0, shown=False):
    arcs = subset(h, [tuple(a) for a in arcs], fixed)
    nm = namer(names)
    g = make(directed, n, arcs, nm)
    s = h.choice('s', n)
    if shown:
        g.set_display_mode('xdot')
    del fakes.SEEN[:]
    pred = {}
    h.call('dfs', g.dfs, nm(s), pred=pred)
    R = reach(n, arcs, s, directed)
    for v in range(n):
        c, l = colour(g, nm(v)), g.get_node_attr(nm(v), 'label')
        h.check('a node is green exactly if it was reached', (c == 'green') == (v in R))
        if v in R:
            h.check('the label gives the times', str(l).strip('"') == '%d,%d' % (
                g.get_node_attr(nm(v), 'disc_time'), g.get_node_attr(nm(v), 'finish_time')))
    green(h, g, nm, arcs, tree_edges(pred, nm, n), directed)
    if shown:
        last_picture(h, g)


def spanning(h, what, n, arcs, names='int', fixed=0, const=(), again=True, lo=None, hi=None):
    arcs = subset(h, [tuple(a) for a in arcs], fixed)
    nm = namer(names)
    cost = [const[k] if k < len(const) and const[k] is not None else h.int('c%d' % k, lo, hi) for k in range(len(arcs))]
    g = make(False, n, arcs, nm, cost=cost)
    inv = {nm(i): i for i in range(n)}
    for rnd in range(1 + again):
        if rnd and arcs:        # other costs
            j = h.choice('other', len(arcs))
            cost[j] = h.int('d', lo, hi)
            g.set_edge_attr(nm(arcs[j][0]), nm(arcs[j][1]), 'cost', cost[j])
        of = {}
        for k, (i, j) in enumerate(arcs):
            of[i, j] = of[j, i] = cost[k]
        if what == 'kruskal':
            r = h.call('minimum_spanning_tree_kruskal', g.minimum_spanning_tree_kruskal)
            tree = [(inv[a], inv[b]) for a, b in r]
            only = None
        else:
            s = h.choice('s%d' % rnd, n)
            pred = h.call('minimum_spanning_tree_prim', g.minimum_spanning_tree_prim, nm(s))
            pred = {v: p for v, p in pred.items() if v != nm(s)}
            tree = tree_edges(pred, nm, n)
            only = reach(n, arcs, s, False)
            for v in range(n):
                h.check('a node is green exactly if it is in the tree', colour(g, nm(v)) == ('green' if v in only else 'black'))
            for p, v in tree:
                h.check('the label is the cost of the edge to the tree', EQ(g.get_node_attr(nm(v), 'label'), of[p, v]))
        green(h, g, nm, arcs, tree, False, only)
        h.observe('tree%d' % rnd, sorted(tree))


def ham(h, directed, n, arcs, names='int', fixed=0):
    arcs = subset(h, [tuple(a) for a in arcs], fixed)
    nm = namer(names)
    g = make(directed, n, arcs, nm)
    s = h.choice('s', n)
    t = h.choice('t', n + 1)
    pred = {}
    r = h.call('hamiltonian', g.hamiltonian, nm(s), pred=pred, **({} if t == n else dict(destination=nm(t))))
    if r:
        lab = {i: g.get_node_attr(nm(i), 'label') for i in range(n)}
        h.check('the labels number the nodes along the path', sorted(str(x) for x in lab.values()) == sorted(str(x) for x in range(n)))
        path = sorted(range(n), key=lambda i: int(lab[i]))
        tree = list(zip(path, path[1:]))
        h.check('the path goes along edges from the source to the destination', path[0] == s and (t == n or path[-1] == t) and all(
            g.check_edge(nm(a), nm(b)) for a, b in tree))
        green(h, g, nm, arcs, tree, directed)
    h.observe('r', r)


def flow(h, algo, n, arcs, names='int', fixed=None, const=(), den=1, again=False, free=(), shown=False, t=None, orient=False, hi=9999):
    arcs = one_per_pair(h, n, [tuple(a) for a in arcs]) if orient else \
        subset(h, [tuple(a) for a in arcs], len(arcs) if fixed is None else fixed)
    nm = namer(names)
    cap = [const[k] if k < len(const) and const[k] is not None else h.num('u%d' % k, 0, hi, den) for k in range(len(arcs))]
    g = new_graph(True)
    for i in range(n):
        g.add_node(nm(i))
    for k, (i, j) in enumerate(arcs):
        g.add_edge(nm(i), nm(j), **({} if k in free else dict(capacity=cap[k])))
    s, t = 0, n - 1 if t is None else t
    if shown:
        g.set_display_mode('xdot')
    for rnd in range(1 + again):
        if rnd and arcs:
            k = h.choice('other', len(arcs))
            if k not in free:
                cap[k] = h.num('u', 0, hi, den)
                g.set_edge_attr(nm(arcs[k][0]), nm(arcs[k][1]), 'capacity', cap[k])
        del fakes.SEEN[:]
        if algo in ('DFS', 'BFS'):
            h.call('max_flow', g.max_flow, nm(s), nm(t), algo=algo)
        else:
            h.call('max_flow_preflowpush', g.max_flow_preflowpush, nm(s), nm(t), algo=algo)
        at = [g.edge_attr[nm(i), nm(j)] for i, j in arcs]
        for k, (i, j) in enumerate(arcs):
            fl = g.get_edge_attr(nm(i), nm(j), 'flow')
            lab = g.get_edge_attr(nm(i), nm(j), 'label').split('/')
            h.check('the label of an arc gives its capacity and its flow', len(lab) == 2 and lab[1] == str(fl)
                    and (lab[0] == str(cap[k]) if k not in free else lab[0] in ('INF', str(gp().global_constants.INF))))
            c = g.get_edge_attr(nm(i), nm(j), 'color')
            if algo not in ('DFS', 'BFS'):
                full = fl == g.get_edge_attr(nm(i), nm(j), 'capacity')
                h.check('an arc is red if it is full, green if it carries flow, black if not',
                        c == ('red' if full else 'green' if fl > 0 else 'black'))
        if algo in ('DFS', 'BFS'):
            side = {i for i in range(n) if colour(g, nm(i)) == 'blue'} | {s}
            h.check('the other nodes are black', all(colour(g, nm(i)) == 'black' for i in range(n) if i not in side))
            h.check('the blue nodes and the source are one side of a minimum cut', t not in side and AND(
                [EQ(g.get_edge_attr(nm(i), nm(j), 'flow'), g.get_edge_attr(nm(i), nm(j), 'capacity')) for i, j in arcs
                 if i in side and j not in side] +
                [EQ(g.get_edge_attr(nm(i), nm(j), 'flow'), 0) for i, j in arcs if j in side and i not in side]))
            h.check('no arc keeps a mark of a step', all(a['color'] in ('red', 'green', 'black', 'blue') for a in at))
        else:
            for i in range(n):
                h.check('the label of a node gives its excess and its distance', g.get_node_attr(nm(i), 'label') == '%s/%s' % (
                    g.get_node_attr(nm(i), 'excess'), g.get_node_attr(nm(i), 'distance')))
        if shown and arcs:
            last_picture(h, g)
        h.observe('colours%d' % rnd, [colour(g, nm(i)) for i in range(n)])


def simplex(h, n, arcs, names='int', pivot='dantzig', ucon=(), ccon=(), dcon=(), den=1, hi=6):
    arcs = [tuple(a) for a in arcs]
    nm = namer(names)

    def num(pre, k, con, lo, hi):
        return con[k] if k < len(con) and con[k] is not None else h.num('%s%d' % (pre, k), lo, hi, den)
    cap = [num('u', k, ucon, 0, hi) for k in range(len(arcs))]
    cost = [num('c', k, ccon, -hi, hi) for k in range(len(arcs))]
    dem = [num('b', k, dcon, -hi, hi) for k in range(n - 1)]
    dem.append(0 - SUM(dem))
    h.assume(feasible(n, arcs, cap, dem))
    g = new_graph(True)
    for i in range(n):
        g.add_node(nm(i), demand=dem[i])
    for k, (i, j) in enumerate(arcs):
        g.add_edge(nm(i), nm(j), capacity=cap[k], cost=cost[k])
    h.call('min_cost_flow', g.min_cost_flow, algo='simplex', pivot=pivot)
    blue = []
    for k, (i, j) in enumerate(arcs):
        a = g.edge_attr[nm(i), nm(j)]
        h.check('the label of an arc gives its flow, capacity and cost',
                a['label'].split('/') == [str(a['flow']), str(cap[k]), str(cost[k])])
        h.check('no arc keeps a mark of a step', a['color'] in ('blue', 'black'))
        if a['color'] == 'blue':
            blue.append((i, j))
        else:
            h.check('an arc that is not in the tree is empty or full', OR([EQ(a['flow'], 0), EQ(a['flow'], cap[k])]))
    h.check('the blue arcs are a spanning tree', len(blue) == n - 1 and len(set(components(n, blue))) == 1)
    h.observe('blue', blue)


def scenarios(tier):
    S = []
    T = tier == 'thorough'
    fam = ('int', 'str', 'mixed', 'neg', 'digit', 'big', 'empty')
    k = 0

    def add(f, **kw):
        S.append((f, kw))
    a4 = [(0, 1), (1, 2), (2, 3), (3, 0), (0, 2), (2, 1)]
    u4 = [(0, 1), (1, 2), (2, 3), (3, 0), (0, 2), (1, 3)]
    for algo in ('DFS', 'BFS', 'UnweightedSPT', 'Dijkstra', 'Prim'):
        w = algo in ('Dijkstra', 'Prim')
        for d in (True, False):
            if algo == 'Prim' and d:
                continue
            k += 1
            a = a4 if d else u4
            add(search, algo=algo, directed=d, n=3, arcs=all_arcs(3, True) if d else all_edges(3, True), names=fam[k % 7],
                fixed=3 if w and not T else 0)
            add(search, algo=algo, directed=d, n=4, arcs=a, names=fam[(k + 1) % 7], fixed=3 if w else 0, comp=True,
                const=[None, 2, 1, None] if not T else [])
            add(search, algo=algo, directed=d, n=4, arcs=a, names=fam[(k + 2) % 7], fixed=5 if w else 3, again=True,
                const=[3, None, 1, 4] if not T else [], shown=True)
            add(search, algo=algo, directed=d, n=4, arcs=a, names=fam[(k + 3) % 7], fixed=5 if w else 3, again=True, comp=True,
                const=[3, None, 1, 4] if not T else [])
            add(search, algo=algo, directed=d, n=10, arcs=WIDE, names=('ten', 'tens')[k % 2], fixed=11, const=WCOST)
            add(search, algo=algo, directed=d, n=10, arcs=HUBC, names='ten', fixed=13, const=[9, None, 3, 4, 1, 8, 2, 5, 1, 3, 0, 2, 1, 7])
            if d:
                add(search, algo=algo, directed=d, n=4, arcs=a, names=fam[(k + 4) % 7], fixed=3 if w else 0, reverse=True,
                    const=[None, 2, 1, None] if not T else [])
                add(search, algo=algo, directed=d, n=4, arcs=a, names=fam[(k + 6) % 7], fixed=5 if w else 3, reverse=True,
                    again=True, const=[3, None, 1, 4] if not T else [])
            if algo != 'Prim':
                add(towards, algo=algo, directed=d, n=4, arcs=a, names=fam[(k + 5) % 7], fixed=4 if w else 1,
                    const=[None, 2, 1, None] if not T else [])
    for d in (True, False):
        add(dfs, directed=d, n=3, arcs=all_arcs(3, True) if d else all_edges(3, True), names='str')
        add(dfs, directed=d, n=4, arcs=a4 if d else u4, names='mixed', shown=True)
        add(dfs, directed=d, n=10, arcs=WIDE, names='ten', fixed=10)
        add(ham, directed=d, n=3, arcs=all_arcs(3) if d else all_edges(3), names='big')
        add(ham, directed=d, n=4, arcs=a4 if d else u4, names='str', fixed=0 if T else 1)
        add(ham, directed=d, n=1, arcs=[], names='empty')
    add(parts, n=4, arcs=all_edges(4), names='str')
    add(parts, n=3, arcs=all_edges(3, True), names='mixed')
    add(parts, n=5, arcs=[(0, 1), (2, 3), (3, 4), (1, 1), (0, 4)], names='neg', shown=True)
    add(parts, n=10, arcs=WIDE[:11], names='ten', fixed=6)
    for what in ('kruskal', 'prim'):
        add(spanning, what=what, n=3, arcs=all_edges(3, True), names='big', again=False, fixed=2)
        add(spanning, what=what, n=4, arcs=u4, names='str', fixed=4, const=[1, None, 3, None, 2, 4])
        add(spanning, what=what, n=4, arcs=u4[::-1], names='mixed', fixed=5, const=[] if T else [None, 2, 5, None, 1, 3], hi=9, lo=-9)
        add(spanning, what=what, n=10, arcs=WIDE[:12], names='tens', fixed=12, const=WCOST, again=False)
    for algo in ('DFS', 'BFS', 'FIFO', 'SAP', 'HighestLabel'):
        k += 1
        add(flow, algo=algo, n=3, arcs=all_edges(3), orient=True, names='str')
        add(flow, algo=algo, n=4, arcs=NETS['bridge4'][1], names=fam[k % 6], const=[] if T else [None, 2, None, None, 3], again=True, shown=True)
        add(flow, algo=algo, n=4, arcs=NETS['bridge4'][1], names=fam[(k + 1) % 6], const=[] if T else [None, 2, None, 1, None], den=4, fixed=3)
        add(flow, algo=algo, n=4, arcs=NETS['bridge4r'][1], names=fam[(k + 2) % 6], free=[0, 2], hi=900, again=True, const=[0, 4] if not T else [])
        add(flow, algo=algo, n=5, arcs=NETS['back5'][1], names=fam[(k + 3) % 6], const=[4, None, 3, 1, None, 2, 5])
        add(flow, algo=algo, n=10, arcs=WIDE, t=4, names='ten', const=[9, 6, 4, None, 8, 3, 11, 5, 6, 7, 4, 2, 2, 3])
    for pivot in ('dantzig', 'first_eligible'):
        k += 1
        add(simplex, n=3, arcs=[(0, 1), (1, 2), (0, 2)], names=fam[k % 6], pivot=pivot, ccon=[None, 1, None])
        add(simplex, n=3, arcs=[(0, 1), (1, 2), (0, 2)], names=fam[(k + 1) % 6], pivot=pivot, ccon=[1, None, 2], ucon=[None, 3], den=2, hi=3)
        add(simplex, n=4, arcs=NETS['bridge4'][1], names=fam[(k + 2) % 6], pivot=pivot, ucon=[3, None, 2, None, 3], dcon=[2, 0, 0],
            ccon=[None, 2, 1, None, -1])
    othernames(S)
    return S
