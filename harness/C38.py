"""C38  a tree answers as the graph it is."""
from .common import *
from .C35 import ALGOS, DIRECTED, NODE
from .C33 import alike
from .flow import is_connected
from . import dot

BOUNDS = {
    'quick': 'every tree of 4 nodes and every binary tree of 3 nodes (each child at a symbolically chosen parent and side, up to two '
             'nodes deleted and one added again under its name), unbounded symbolic costs (0..3 and capacities 0..2 for flows), every '
             'algorithm and query of Graph with every source and destination; listed trees of 6-10 nodes',
    'thorough': 'as quick with 5 nodes'}
OUTSIDE = 'the methods the tree classes define themselves (C21-C23), attributes that are not a documented result, the DOT attributes of nodes'

WHAT = [w for w in DIRECTED if w not in ('dfs', 'bfs')]
QUERIES = {
    'get_node_list': lambda g, v, w: g.get_node_list(),
    'get_edge_list': lambda g, v, w: g.get_edge_list(),
    'get_node_num': lambda g, v, w: g.get_node_num(),
    'get_edge_num': lambda g, v, w: g.get_edge_num(),
    'get_neighbors': lambda g, v, w: list(g.get_neighbors(v)),
    'get_in_neighbors': lambda g, v, w: list(g.get_in_neighbors(v)),
    'get_out_neighbors': lambda g, v, w: list(g.get_out_neighbors(v)),
    'check_edge': lambda g, v, w: g.check_edge(v, w),
    'contains node': lambda g, v, w: v in g,
    'contains edge': lambda g, v, w: (v, w) in g,
    'get_edge_attr': lambda g, v, w: g.get_edge_attr(v, w, 'cost') if g.check_edge(v, w) else None,
    'repr': lambda g, v, w: repr(g),
    'to_string': lambda g, v, w: outline(g.to_string()),
}


def outline(text):
    """what a DOT text says about nodes and edges, attributes left out"""
    d = dot.parse(text)
    return (d['kind'], [x[0] for x in d['nodes']], [(x[0], x[1], x[3]) for x in d['edges']], sorted(d['clusters']))


def grow(h, kind, n, names, script=(), drop=0, ask=None):
    """a tree, and the nodes and arcs it must have (in order)"""
    G = gp()
    nm = namer(names)
    t = (G.Tree if kind == 'tree' else G.BinaryTree)(display='off')
    t.add_root(nm(0))
    nodes, arcs, side, made = [0], [], {}, 1

    def child(i, p, s):
        if kind == 'tree':
            h.call('add_child', t.add_child, nm(i), nm(p))
        else:
            h.call('add child', t.add_right_child if s else t.add_left_child, nm(i), nm(p))
        side[p, s] = i
        nodes.append(i)
        arcs.append((p, i))
    for i in range(1, n):
        if i <= len(script):
            p, s = script[i - 1] if kind != 'tree' else (script[i - 1], 0)
        else:
            free = [(p, s) for p in nodes for s in range(2) if kind == 'tree' and not s or kind != 'tree' and (p, s) not in side]
            p, s = free[h.choice('p%d' % i, len(free))]
        child(i, p, s)
    for x in range(drop):
        if ask:     # the answer then is not the answer later
            h.outcome('a query', (Exception,), ask, t, nm(nodes[0]), nm(nodes[-1]))
        d = nodes[h.choice('drop%d' % x, len(nodes))]
        h.assume(d != 0)
        h.call('del_node', t.del_node, nm(d))
        nodes.remove(d)
        arcs[:] = [a for a in arcs if d not in a]
        for k in [k for k, v in side.items() if v == d or k[0] == d]:
            del side[k]
        if h.bool('again%d' % x):
            free = [(p, s) for p in nodes for s in range(1 if kind == 'tree' else 2) if kind == 'tree' or (p, s) not in side]
            p, s = free[h.choice('q%d' % x, len(free))]
            child(d if ask is None or h.bool('name%d' % x) else n + x, p, s)
    return t, nm, nodes, arcs


def same(h, kind, n, what, names='str', script=(), drop=0, lo=None, hi=None, cap=2, dem=1, ends='any', fix=()):
    t, nm, nodes, arcs = grow(h, kind, n, names, script, drop, QUERIES.get(what) or (ALGOS[what] if 'flow' not in what else None))
    flow = 'flow' in what or what == 'find_feasible_flow'
    if flow:
        lo, hi = 0, 3
    elif 'Dijkstra' in what:
        lo = 0
    if 'simplex' in what:
        h.assume(len(arcs) == len(nodes) - 1)
    cost = [h.int('c%d' % k, lo, hi) if k not in fix else (k * 5) % 7 for k in range(len(arcs))]
    u = [h.int('u%d' % k, 0, cap) if flow else 1 for k in range(len(arcs))]
    g = new_graph(True)
    for v in nodes:
        g.add_node(nm(v))
    for i, j in arcs:
        g.add_edge(nm(i), nm(j))
    for x in (t, g):
        for k, v in enumerate(nodes):
            x.set_node_attr(nm(v), 'demand', dem if k == 0 else -dem if k == len(nodes) - 1 else 0)
        for k, (i, j) in enumerate(arcs):
            x.set_edge_attr(nm(i), nm(j), 'cost', cost[k])
            x.set_edge_attr(nm(i), nm(j), 'capacity', u[k])
    if ends == 'any':
        s, e = h.choice('s', len(nodes)), h.choice('t', len(nodes))
        if flow:
            h.assume(s != e)
    else:
        s, e = ends
    s, e = nm(nodes[s]), nm(nodes[e])
    if what in QUERIES:
        r = [h.outcome(what, (Exception,), QUERIES[what], x, s, e) for x in (t, g)]
        h.check('%s of the tree is that of its graph' % what, r[0][0] == r[1][0] and (not r[0][0] or alike(r[0][1], r[1][1])))
        h.observe('ok', r[0][0])
        return
    res = []
    for x in (t, g):
        ok, r = h.outcome(what, (Exception,), ALGOS[what], x, s, e)
        out = [ok, r if ok else type(r).__name__]
        if what in NODE:
            out.append([x.get_node_attr(v, NODE[what]) for v in x.get_node_list()])
        if flow and not (what == 'find_feasible_flow' and r is False):
            out.append([(a, x.edge_attr[a].get('flow')) for a in x.get_edge_list()])
        out.append((x.get_node_list(), x.get_edge_list()))
        res.append(out)
    h.check('%s of the tree is that of its graph' % what, alike(res[0], res[1]))
    h.observe('ok', res[0][0])


def scenarios(tier):
    S = []
    T = tier == 'thorough'
    fam = ('str', 'mixed', 'int', 'neg', 'digit', 'big', 'one')
    for k, what in enumerate(WHAT + sorted(QUERIES)):
        slow = 'flow' in what
        S.append((same, dict(kind='tree', n=(5 if T and not slow else 4), what=what, names=fam[k % 7], ends='any' if not slow else (0, -1), cap=1 if slow else 2)))
        S.append((same, dict(kind='binary', n=3, what=what, names=fam[(k + 1) % 7], drop=1, ends='any' if not slow else (0, -1))))
        if what in QUERIES or T and not slow:
            S.append((same, dict(kind='tree', n=3, what=what, names=fam[(k + 2) % 7], drop=2)))
        S.append((same, dict(kind='tree', n=10, what=what, names='ten', script=[0, 0, 1, 3, 1, 3, 0, 7, 8], ends=(0, 6), cap=1, fix=(0, 2, 3, 4, 6, 7))))
        S.append((same, dict(kind='binary', n=7, what=what, names=fam[(k + 3) % 7], script=[(0, 1), (1, 0), (1, 1), (0, 0), (4, 1)], ends=(0, -1), cap=1, fix=(0, 2, 3))))
    othernames(S)
    return S
