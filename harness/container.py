"""Histories of container operations on graphs whose node names are symbolic:
every argument is a fresh unbounded integer, so one program skeleton covers all
patterns of equal and different names (self-loops, duplicates, re-insertions,
deletions of present and absent items)."""
from .common import *


class Ref(object):
    """the abstract graph: nodes in insertion order, edges as given"""

    def __init__(self, directed):
        self.directed = directed
        self.nodes = []
        self.edges = []

    def copy(self):
        r = Ref(self.directed)
        r.nodes, r.edges = list(self.nodes), list(self.edges)
        return r

    def has(self, x):
        return any(bool(x == y) for y in self.nodes)

    def edge(self, x, y):
        for e in self.edges:
            if bool(e[0] == x) and bool(e[1] == y):
                return e
            if not self.directed and bool(e[0] == y) and bool(e[1] == x):
                return e
        return None

    def add_node(self, x):
        if not self.has(x):
            self.nodes.append(x)


def member(x, xs):
    return any(bool(x == y) for y in xs)


def same_set(h, label, got, want, eq=lambda a, b: bool(a == b)):
    h.check(label, len(got) == len(want) and all(any(eq(g, w) for g in got) for w in want))


def pair_eq(directed):
    def eq(a, b):
        if bool(a[0] == b[0]) and bool(a[1] == b[1]):
            return True
        return not directed and bool(a[0] == b[1]) and bool(a[1] == b[0])
    return eq


def compare(h, g, ref, tag):
    """every public query agrees with the abstract graph"""
    d = ref.directed
    nl = h.call('get_node_list', g.get_node_list)
    same_set(h, tag + ': get_node_list is exactly the nodes present', nl, ref.nodes)
    h.check(tag + ': get_node_num', g.get_node_num() == len(ref.nodes))
    el = h.call('get_edge_list', g.get_edge_list)
    same_set(h, tag + ': get_edge_list is exactly the edges present', el, ref.edges, pair_eq(d))
    h.check(tag + ': get_edge_num', g.get_edge_num() == len(ref.edges))
    for x in ref.nodes:
        n = g.get_node(x)
        h.check(tag + ': get_node finds every node', n is not None)
        h.check(tag + ': a node carries its own name', n is not None and bool(n.name == x))
        h.check(tag + ': every node is contained', bool(x in g))
        out = h.call('get_neighbors', g.get_neighbors, x)
        want = [y for y in ref.nodes if ref.edge(x, y) is not None]
        h.check(tag + ': neighbours are exactly the adjacent nodes',
                all(member(y, want) for y in out) and all(member(y, out) for y in want))
        h.check(tag + ': a neighbour is listed once',
                all(sum(1 for z in out if bool(z == y)) == 1 for y in want if not bool(y == x)))
        if d:
            h.check(tag + ': a loop is listed once',
                    not member(x, want) or sum(1 for z in out if bool(z == x)) == 1)
            same_set(h, tag + ': out-neighbours', h.call('get_out_neighbors', g.get_out_neighbors, x), want)
            same_set(h, tag + ': in-neighbours', h.call('get_in_neighbors', g.get_in_neighbors, x),
                     [y for y in ref.nodes if ref.edge(y, x) is not None])
        for y in ref.nodes:
            e = ref.edge(x, y) is not None
            h.check(tag + ': check_edge', bool(g.check_edge(x, y)) == e)
            h.check(tag + ': edge membership', bool((x, y) in g) == e)
    deg = h.call('get_degrees', g.get_degrees) if tag == 'end' else None
    if deg is not None:
        h.check(tag + ': get_degrees covers the nodes', len(deg) == len(ref.nodes))


def history(h, directed, ops, focus, nodes=0):
    """ops: string over N (add_node) E (add_edge) D (del_node) X (del_edge)"""
    G = gp()
    g = new_graph(directed)
    ref = Ref(directed)
    k = [0]

    def name():
        k[0] += 1
        return h.int('x%d' % k[0])

    done = []
    for i in range(nodes):
        x = h.int('n%d' % i)
        for y in ref.nodes:
            h.assume(x != y)
        g.add_node(x)
        ref.add_node(x)
    for op in ops:
        x = name()
        y = name() if op in 'EX' else None
        before = ref.copy()
        if op == 'N':
            rejected = ref.has(x)
            exc, call = G.MultipleNodeException, lambda: g.add_node(x)
        elif op == 'E':
            rejected = ref.edge(x, y) is not None
            exc, call = G.MultipleEdgeException, lambda: g.add_edge(x, y)
        elif op == 'D':
            rejected = not ref.has(x)
            exc, call = Exception, lambda: g.del_node(x)
        else:
            rejected = ref.edge(x, y) is None
            exc, call = Exception, lambda: g.del_edge((x, y))
        what = {'N': 'add_node', 'E': 'add_edge', 'D': 'del_node', 'X': 'del_edge'}[op]
        if rejected:
            if focus != 'reject':
                h.assume(False)
            attrs = {a: dict(g.edge_attr[a]) for a in g.get_edge_list()}
            h.raises('%s is rejected' % what, exc, call)
            compare(h, g, before, 'after rejected ' + what)
            h.check('rejected %s leaves the edge attributes unchanged' % what,
                    {a: dict(g.edge_attr[a]) for a in g.get_edge_list()} == attrs)
        else:
            r = h.call(what, call)
            if op == 'N':
                ref.add_node(x)
                h.check('add_node returns the node', r is not None and r is g.get_node(x))
            elif op == 'E':
                ref.add_node(x)
                ref.add_node(y)
                ref.edges.append((x, y))
            elif op == 'D':
                ref.nodes = [z for z in ref.nodes if not bool(z == x)]
                ref.edges = [e for e in ref.edges if not bool(e[0] == x) and not bool(e[1] == x)]
            else:
                e = ref.edge(x, y)
                ref.edges = [z for z in ref.edges if z is not e]
            done.append(what)
    if focus != 'reject':
        compare(h, g, ref, 'end')
    h.observe('nodes', g.get_node_list())
    h.observe('edges', g.get_edge_list())
