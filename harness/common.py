"""Shared pieces of the harnesses: graph builders and specifications written
as quantifier-free formulas over the (symbolic) data of one finite graph."""
import itertools
from symx.expr import Sym, AND, OR, NOT, IMP, IFF, EQ, SUM, ALLEQ, mk_bool   # noqa: F401


def gp():
    import gimpy
    return gimpy


# ---------------------------------------------------------------- names
def namer(kind):
    """i -> a node name; equal but not identical objects on every call"""
    if kind == 'int':
        return lambda i: int(str(i))
    if kind == 'one':
        return lambda i: int(str(i + 1))
    if kind == 'big':
        return lambda i: int('10%d' % (i + 300))
    if kind == 'str':
        return lambda i: ''.join(['v', str(i)])
    if kind == 'digit':
        return lambda i: ''.join([str(i // 10), str(i % 10)])
    if kind == 'mixed':
        return lambda i: int('10%d' % (i + 300)) if i % 2 else ''.join(['v', str(i)])
    if kind == 'neg':
        return lambda i: int('-%d' % (i + 400))
    if kind == 'tuple':
        return lambda i: (int('10%d' % (i + 300)), i % 2)
    if kind == 'empty':
        return lambda i: ''.join(['v' * i])
    if kind == 'ten':       # one and two digits
        return lambda i: int(str(i + 7))
    if kind == 'tens':
        return lambda i: str(i + 7)
    if kind == 'float':
        return lambda i: i / 2.0
    if kind == 'accent':    # not ASCII
        return lambda i: ''.join([u'caf\u00e9 \u4e2d', str(i)])
    raise ValueError(kind)


def new_graph(directed, **kw):
    g = gp()
    return g.Graph(type=g.DIRECTED_GRAPH if directed else g.UNDIRECTED_GRAPH,
                   display='off', **kw)


def build(h, directed, n, arcs, nm, nodes_first=True, node_attr=None, **attrs):
    """attrs: attribute name -> list of values, one per arc"""
    g = new_graph(directed)
    if nodes_first:
        for i in range(n):
            g.add_node(nm(i), **(node_attr(i) if node_attr else {}))
    for k, (i, j) in enumerate(arcs):
        g.add_edge(nm(i), nm(j), **{a: v[k] for a, v in attrs.items()})
    return g


class Before(object):
    """a harness interface whose first call of every method of a graph is preceded by a call of the same method on the
    same graph in another state with as many nodes and edges (an edge or node replaced, or the data on them moved)"""

    def __init__(self, h, how):
        self._h, self._how, self._seen = h, how, set()

    def __getattr__(self, a):
        return getattr(self._h, a)

    def call(self, label, fn, /, *a, **k):
        self._ask(fn, a, k)
        return self._h.call(label, fn, *a, **k)

    def outcome(self, label, excs, fn, /, *a, **k):
        self._ask(fn, a, k)
        return self._h.outcome(label, excs, fn, *a, **k)

    def _ask(self, fn, a, k):
        g, what = getattr(fn, '__self__', None), getattr(fn, '__name__', '')
        if type(g) is not gp().Graph or (id(g), what) in self._seen or not g.get_edge_num() \
                or what.split('_')[0] in ('add', 'del', 'set') or what == 'create_cluster':
            return
        self._seen.add((id(g), what))
        directed = g.graph_type == gp().DIRECTED_GRAPH
        nodes, edges = g.get_node_list(), g.get_edge_list()
        at = {e: dict(g.edge_attr[e]) for e in edges}
        nt = {v: dict(g.get_node(v).attr) for v in nodes}
        e = edges[-1] if self._how == 'last' else edges[0]
        new = [(x, y) for i, x in enumerate(nodes) for y in nodes[i + 1:]
               if not g.check_edge(x, y) and not g.check_edge(y, x)]
        if self._how in ('edge', 'last'):
            if not new:
                return
            g.del_edge(e)
            g.add_edge(*new[-1], **at[e])
            self._run(fn, a, k)
            g.del_edge(new[-1])
            for x in edges if self._how == 'edge' else [e]:     # in the order they had
                if x in g:
                    g.del_edge(x)
                g.add_edge(*x, **at[x])
        elif self._how == 'node':
            v = nodes[-1]
            mine = [e for e in edges if v in e]
            g.del_node(v)
            g.add_node('between', **nt[v])
            for x, y in mine:
                g.add_edge('between' if x == v else x, 'between' if y == v else y, **at[x, y])
            self._run(fn, a, k)
            g.del_node('between')
            g.add_node(v, **nt[v])
            for x in edges:
                if x in g:
                    g.del_edge(x)
                g.add_edge(*x, **at[x])
        else:
            for items, old in ((edges, at), (nodes, nt)):
                for x, y in zip(items, items[1:] + items[:1]):
                    for b in old[x]:
                        if b in ('cost', 'capacity', 'demand', 'label', 'shape') and b in old[y]:
                            self._set(g, items is edges, x, b, old[y][b])
            self._run(fn, a, k)
            for items, old in ((edges, at), (nodes, nt)):
                for x in items:
                    for b in old[x]:
                        if b in ('cost', 'capacity', 'demand', 'label', 'shape'):
                            self._set(g, items is edges, x, b, old[x][b])

    def _set(self, g, edge, x, b, v):
        if edge:
            g.set_edge_attr(x[0], x[1], b, v)
        else:
            g.set_node_attr(x, b, v)

    def _run(self, fn, a, k):
        self._h.outcome('the call before', (Exception,), fn, *a, **k)


def asked_before(h, mod, fn, before, **cfg):
    """a scenario of another driver, its questions asked before about another state of the graph"""
    import importlib
    getattr(importlib.import_module('harness.' + mod), fn)(Before(h, before), **cfg)


def again(S, mod, fn, *hows, **cfg):
    for how in hows or ('edge', 'last', 'node', 'data'):
        S.append((asked_before, dict(mod=mod, fn=fn, before=how, **cfg)))


def subset(h, arcs, fixed=0):
    """the arcs actually present: the first `fixed` always, the rest symbolic"""
    return [a for k, a in enumerate(arcs) if k < fixed or h.bool('arc%d' % k)]


def all_arcs(n, loops=False):
    return [(i, j) for i in range(n) for j in range(n) if i != j or loops]


def all_edges(n, loops=False):
    return [(i, j) for i in range(n) for j in range(i if loops else i + 1, n)]


def adjacency(n, arcs, directed=True):
    adj = [[] for _ in range(n)]
    for k, (i, j) in enumerate(arcs):
        adj[i].append((j, k))
        if not directed and i != j:
            adj[j].append((i, k))
    return adj


def reach(n, arcs, s, directed=True):
    adj = adjacency(n, arcs, directed)
    seen = {s}
    todo = [s]
    while todo:
        u = todo.pop()
        for v, _ in adj[u]:
            if v not in seen:
                seen.add(v)
                todo.append(v)
    return seen


def levels(n, arcs, s, directed=True):
    adj = adjacency(n, arcs, directed)
    d = {s: 0}
    todo = [s]
    while todo:
        u = todo.pop(0)
        for v, _ in adj[u]:
            if v not in d:
                d[v] = d[u] + 1
                todo.append(v)
    return d


def simple_paths(n, arcs, s, directed=True):
    """t -> list of simple paths s..t, each a list of arc indices"""
    adj = adjacency(n, arcs, directed)
    out = {t: [] for t in range(n)}

    def go(u, seen, path):
        out[u].append(list(path))
        for v, k in adj[u]:
            if v not in seen:
                go(v, seen | {v}, path + [k])
    go(s, {s}, [])
    return out


def simple_cycles(n, arcs):
    """list of simple directed cycles (arc index lists), loops included"""
    adj = adjacency(n, arcs)
    out = []

    def go(start, u, seen, path):
        for v, k in adj[u]:
            if v == start:
                out.append(path + [k])
            elif v > start and v not in seen:
                go(start, v, seen | {v}, path + [k])
    for s in range(n):
        go(s, s, {s}, [])
    return out


def components(n, arcs):
    lab = list(range(n))
    ch = True
    while ch:
        ch = False
        for i, j in arcs:
            m = min(lab[i], lab[j])
            if lab[i] != m or lab[j] != m:
                lab[i] = lab[j] = m
                ch = True
    return lab


def spanning_trees(n, arcs, nodes=None):
    """spanning trees (arc index tuples) of the undirected graph on `nodes`"""
    nodes = sorted(nodes if nodes is not None else range(n))
    idx = [k for k, (i, j) in enumerate(arcs) if i in nodes and j in nodes and i != j]
    out = []
    for c in itertools.combinations(idx, len(nodes) - 1):
        lab = components(n, [arcs[k] for k in c])
        if len({lab[v] for v in nodes}) == 1:
            out.append(c)
    return out


def reach_sets(n, arcs):
    return [reach(n, arcs, s) for s in range(n)]


# fixed mid-size topologies: (n, arcs)
TOPO = {
    # two routes of different length plus a late shortcut
    'diamond5': (5, [(0, 1), (0, 2), (1, 3), (2, 3), (2, 1), (3, 4), (1, 4)]),
    'ladder6': (6, [(0, 1), (0, 2), (1, 3), (2, 4), (1, 2), (3, 5), (4, 5), (4, 3)]),
    'cyc6': (6, [(0, 1), (1, 2), (2, 3), (3, 1), (3, 4), (4, 5), (5, 2)]),
    'dense4': (4, all_arcs(4)),
    'back5': (5, [(0, 1), (1, 2), (2, 3), (3, 4), (4, 0), (0, 2), (2, 4), (1, 3)]),
    'k4': (4, all_edges(4)),
    'path7': (7, [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 6), (0, 6)]),
    'star6': (6, [(0, 1), (0, 2), (0, 3), (0, 4), (0, 5), (1, 2), (3, 4)]),
    'wheel5': (5, [(0, 1), (0, 2), (0, 3), (0, 4), (1, 2), (2, 3), (3, 4), (4, 1)]),
    'two6': (6, [(0, 1), (1, 2), (0, 2), (3, 4), (4, 5), (3, 5)]),
    'grid6': (6, [(0, 1), (1, 2), (3, 4), (4, 5), (0, 3), (1, 4), (2, 5)]),
}


# ten nodes; the last arcs are the ones worth leaving open
WIDE = [(0, 9), (9, 2), (2, 7), (7, 1), (5, 8), (8, 3), (6, 4), (9, 7), (8, 6),
        (1, 5), (3, 6), (0, 2), (1, 8), (5, 3)]
WIDEC = WIDE + [(4, 1), (3, 2)]
# a node with eight neighbours
HUB = [(0, 8), (0, 3), (0, 1), (0, 6), (0, 2), (0, 7), (0, 5), (0, 4), (2, 9), (5, 9), (7, 9), (1, 2), (6, 3)]
HUBC = HUB + [(9, 0)]
WCOST = [3, 1, 4, 2, 1, 5, 2, 6, 9, None, 2, 7, None, 4, 1, None]


def topo(name):
    n, a = TOPO[name]
    return n, list(a)


def othernames(S, kinds=('float', 'empty', 'accent'), per=1):
    """the first scenario with plain text names of every driver, with names of other kinds"""
    count = {}
    for fn, k in list(S):
        key = (fn, k.get('fn'))
        if k.get('names') in ('str', 'mixed') and count.get(key, 0) < per and k.get('n', 0) < 8:
            count[key] = count.get(key, 0) + 1
            for x in kinds:
                S.append((fn, dict(k, names=x)))
