"""C27  Degrees and diameter."""
from .common import *
import math

BOUNDS = {
    'quick': 'every directed graph with 3 nodes (loops included; 4 nodes, without loops, for a fixed part), every simple '
             'undirected graph with up to 4 nodes and every subset of the listed graphs with 5-10 nodes; diameters of all '
             'of the undirected ones; after up to two symbolically chosen deletions; eight families of names',
    'thorough': 'as quick with every directed graph with 4 nodes, every undirected graph with 5 nodes'}
BUDGET = 400000
OUTSIDE = 'the degree of an undirected node with a self-loop (not documented), the diameter of an empty graph'


def degrees(h, directed, n, arcs, names='int', delete='', fixed=0, diameter=True):
    g_arcs = subset(h, arcs, fixed)
    nm = namer(names)
    g = build(h, directed, n, g_arcs, nm)
    nodes = list(range(n))
    for k, op in enumerate(delete):
        if op == 'N':
            i = nodes.pop(h.choice('n%d' % k, len(nodes)))
            h.call('del_node', g.del_node, nm(i))
            g_arcs = [a for a in g_arcs if i not in a]
        elif g_arcs:
            a = g_arcs.pop(h.choice('e%d' % k, len(g_arcs)))
            h.call('del_edge', g.del_edge, (nm(a[0]), nm(a[1])))
    want_in = {i: sum(1 for a in g_arcs if a[1] == i) for i in nodes}
    want_out = {i: sum(1 for a in g_arcs if a[0] == i) for i in nodes}

    def same(label, got, want):
        h.check(label, got is not None and len(got) == len(want)
                and all(nm(i) in got and got[nm(i)] == want[i] for i in want))
    same('get_degrees counts the edges at every node', h.call('get_degrees', g.get_degrees),
         {i: want_in[i] + want_out[i] for i in nodes})
    if directed:
        same('get_in_degrees counts the arcs into every node', h.call('get_in_degrees', g.get_in_degrees), want_in)
        same('get_out_degrees counts the arcs out of every node', h.call('get_out_degrees', g.get_out_degrees), want_out)
    elif diameter and nodes:
        d = h.call('get_diameter', g.get_diameter)
        lev = {s: levels(n, g_arcs, s, False) for s in nodes}
        if any(len(lev[s]) < len(nodes) for s in nodes):
            h.check('a disconnected graph has no diameter', d in ('infinity', float('inf'), None)
                    or (isinstance(d, float) and math.isinf(d)))
        else:
            h.check('the diameter is the largest distance', d == max(max(x.values()) for x in lev.values()))
        h.observe('diameter', d)
        h.check('asking for the diameter again gives the same', h.call('get_diameter', g.get_diameter) == d)
    h.observe('nodes', nodes)


def scenarios(tier):
    S = []
    T = tier == 'thorough'
    fam = ['int', 'big', 'str', 'digit', 'mixed', 'neg']

    def add(**k):
        S.append((degrees, k))
    for k, nm in enumerate(fam):
        add(directed=False, n=4, arcs=all_edges(4), names=nm)
        add(directed=True, n=3, arcs=all_arcs(3), names=nm)
    add(directed=True, n=3, arcs=all_arcs(3, loops=True), names='int')
    add(directed=True, n=4, arcs=all_arcs(4), names='str', fixed=0 if T else 4)
    for d in (True, False):
        for x in ('N', 'E', 'EN', 'NE'):
            add(directed=d, n=4, arcs=all_edges(4), names='int' if x == 'N' else 'str', delete=x)
    for t in ('wheel5', 'star6', 'grid6', 'path7', 'two6'):
        n, a = topo(t)
        add(directed=False, n=n, arcs=a, names='mixed', fixed=max(0, len(a) - (10 if T else 7)))
    add(directed=False, n=1, arcs=[], names='int')
    add(directed=False, n=2, arcs=[(1, 0)], names='int')
    add(directed=False, n=8, arcs=[(i, i + 1) for i in range(7)] + [(0, 7), (2, 5)], names='one', fixed=5)
    for k, nm in enumerate(['ten', 'tens', 'str', 'mixed']):
        add(directed=k % 2 == 0, n=10, arcs=HUBC, names=nm, fixed=11, delete='' if k % 2 else 'E', diameter=k % 2 == 0)
        add(directed=False, n=10, arcs=WIDE, names=nm, fixed=10, delete='' if k % 2 else 'E')
        add(directed=True, n=10, arcs=WIDEC, names=nm, fixed=12, delete='N' if k % 2 else 'E')
    add(directed=False, n=9, arcs=[(i, i + 1) for i in range(8)] + [(0, 8), (3, 6), (1, 7)], names='ten', fixed=8, delete='')
    add(directed=False, n=9, arcs=[(i, i + 1) for i in range(8)] + [(8, 0), (6, 2), (7, 4)], names='tens', fixed=9, delete='N')
    if T:
        add(directed=False, n=5, arcs=all_edges(5), names='int')
        add(directed=True, n=4, arcs=all_arcs(4, loops=True), names='big', fixed=4)
    for d in (True, False):
        again(S, 'C27', 'degrees', 'edge', 'last', 'node', directed=d, n=5, arcs=[(0, 1), (1, 2), (2, 3), (3, 4), (0, 2), (4, 1)], names='str', fixed=2)
        again(S, 'C27', 'degrees', 'edge', directed=d, n=7, arcs=[(i, i + 1) for i in range(6)], names='mixed', fixed=4)
    othernames(S)
    return S
