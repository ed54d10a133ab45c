"""Graph search harnesses (arc presence, source and names symbolic)."""
from .common import *


def walk_arcs(arcs, directed, reverse):
    return [(j, i) for i, j in arcs] if (directed and reverse) else list(arcs)


def steps_of(arcs, directed):
    s = set(arcs)
    if not directed:
        s |= {(j, i) for i, j in arcs}
    return s


def back_path(h, pred, t, s, n, label):
    seq = [t]
    while seq[0] != s:
        if seq[0] not in pred or len(seq) > n:
            h.fail(label + ': predecessors lead back to the source')
        seq.insert(0, pred[seq[0]])
    return seq


def container(kind):
    """an empty container of the kind search() keeps its open nodes in"""
    import coinor.blimpy as b
    return getattr(b, kind)()


def search_tree(h, directed, n, arcs, fixed=0, names='int', algo='DFS', reverse=False,
                dest=False, pick=False, twice=False, shortest=False, method=False, q=None, first=False):
    nm = namer(names)
    arcs = subset(h, [tuple(a) for a in arcs], fixed)
    g = build(h, directed, n, arcs, nm)
    idx = {nm(i): i for i in range(n)}
    s = h.choice('source', n) if pick else 0
    walk = walk_arcs(arcs, directed, reverse)
    steps = steps_of(walk, directed)
    lev = levels(n, walk, s, directed)
    if first:       # an earlier search that may stop before it has seen everything
        h.outcome('search', (Exception,), g.search, nm(h.choice('from', n)), destination=nm(h.choice('to', n)), algo=algo,
                  **({'reverse': True} if reverse else {}))
    for rep in range(2 if twice else 1):
        kw = {'reverse': True} if reverse else {}
        if q:
            kw['q'] = container(q)
        if method:
            h.call('bfs', g.bfs, nm(s))
            for i in range(n):
                d = g.get_node_attr(nm(i), 'distance')
                h.check('bfs labels exactly the reachable nodes with a distance', (d is not None) == (i in lev))
                if i in lev:
                    h.check('bfs distance is the number of arcs of a shortest path', d == lev[i])
            continue
        if dest:
            for t in range(n):
                if q:
                    kw['q'] = container(q)
                r = h.call('search(%s, destination)' % algo, g.search, nm(s), destination=nm(t), algo=algo, **kw)
                h.observe('path%d.%d' % (rep, t), r)
                if t not in lev:
                    h.check('an unreachable destination gives None', r is None)
                    continue
                h.check('a reachable destination gives a path', isinstance(r, list) and len(r) > 0)
                seq = [idx[x] for x in r]
                h.check('the path runs from source to destination', seq[0] == s and seq[-1] == t)
                h.check('every step of the path is an arc of the graph',
                        all(st in steps for st in zip(seq, seq[1:])))
                h.check('the path visits no node twice', len(set(seq)) == len(seq))
                if shortest:
                    h.check('the path has the fewest arcs possible', len(seq) - 1 == lev[t])
            continue
        p = h.call('search(%s)' % algo, g.search, nm(s), algo=algo, **kw)
        h.observe('pred%d' % rep, p)
        h.check('the result is a predecessor dictionary', isinstance(p, dict))
        pred = {idx[a]: idx[b] for a, b in p.items()}
        h.check('predecessors exist for exactly the reachable nodes except the source',
                set(pred) == set(lev) - {s})
        h.check('every predecessor step is an arc of the graph', all((b, a) in steps for a, b in pred.items()))
        for t in sorted(pred):
            seq = back_path(h, pred, t, s, n, 'tree')
            if shortest:
                h.check('the tree path has the fewest arcs possible', len(seq) - 1 == lev[t])
        if shortest:
            for t in sorted(lev):
                h.check('the distance attribute is the number of arcs of a shortest path',
                        g.get_node_attr(nm(t), 'distance') == lev[t])


def marked(h, directed, n, arcs, fixed=0, names='int', algo='DFS', reverse=False, pick=False, method=False):
    """the component number marks the nodes that are reached, and nothing without one"""
    nm = namer(names)
    arcs = subset(h, [tuple(a) for a in arcs], fixed)
    cost = [k * 3 % 5 for k in range(len(arcs))] if algo in ('Dijkstra', 'Prim') else None
    g = build(h, directed, n, arcs, nm, **({} if cost is None else dict(cost=cost)))
    s = h.choice('source', n) if pick else 0
    R = reach(n, walk_arcs(arcs, directed, reverse), s, directed)
    want = ['old'] * n
    for i in range(n):
        g.set_node_attr(nm(i), 'component', 'old')
    for rnd in range(2):
        c = [None, 0, 7][h.choice('component%d' % rnd, 3)]
        kw = {} if c is None else dict(component=c)
        if method:
            h.call('bfs', g.bfs, nm(s), **kw)
        else:
            if reverse:
                kw['reverse'] = True
            h.call('search(%s)' % algo, g.search, nm(s), algo=algo, **kw)
        if c is not None:
            for i in R:
                want[i] = c
        h.check('exactly the nodes reached get the component number, none without one',
                all(g.get_node_attr(nm(i), 'component') == want[i] for i in range(n)))


def grown(h, directed, n, arcs, extra, algo='DFS', names='int', shortest=False):
    """search, change the graph, search again: no stale state"""
    nm = namer(names)
    arcs = [tuple(a) for a in arcs]
    extra = [tuple(a) for a in extra]
    g = build(h, directed, n, arcs, nm)
    idx = {nm(i): i for i in range(n)}
    s0 = h.choice('first', n)
    h.call('search', g.search, nm(s0), algo=algo)
    cur = list(arcs)
    for k, a in enumerate(extra):
        if h.bool('add%d' % k):
            g.add_edge(nm(a[0]), nm(a[1]))
            cur.append(a)
    for k, a in enumerate(arcs):
        if k < 3 and h.bool('del%d' % k):
            h.call('del_edge', g.del_edge, (nm(a[0]), nm(a[1])))
            cur.remove(a)
    s = h.choice('source', n)
    lev = levels(n, cur, s, directed)
    steps = steps_of(cur, directed)
    p = h.call('search', g.search, nm(s), algo=algo)
    pred = {idx[a]: idx[b] for a, b in p.items()}
    h.check('after a change: predecessors exist for exactly the reachable nodes', set(pred) == set(lev) - {s})
    h.check('after a change: every predecessor step is an arc', all((b, a) in steps for a, b in pred.items()))
    for t in sorted(pred):
        seq = back_path(h, pred, t, s, n, 'after a change')
        if shortest:
            h.check('after a change: fewest arcs', len(seq) - 1 == lev[t])


# candidate arcs in an order that gives long detours before short cuts
D5 = [(0, 1), (1, 2), (2, 3), (3, 4), (0, 2), (1, 4), (4, 0), (3, 1), (0, 4), (2, 2)]
D6 = [(0, 1), (0, 2), (1, 3), (2, 3), (3, 4), (4, 5), (5, 1), (2, 5), (4, 0), (0, 5)]
D7 = [(0, 1), (1, 2), (2, 3), (0, 4), (4, 5), (5, 6), (3, 6), (6, 1), (2, 5), (4, 2)]
U5 = [(0, 1), (1, 2), (2, 3), (3, 4), (4, 0), (0, 2), (1, 3), (2, 4), (3, 3)]
U7 = [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 6), (6, 0), (1, 4), (2, 5), (0, 3)]
