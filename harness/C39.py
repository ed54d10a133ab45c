"""C39  print_flow and the text of a graph report exactly what is there."""
from .common import *

BOUNDS = {
    'quick': 'every graph with 3 nodes (loops included) and symbolic subsets of graphs with 4-10 nodes, both types, unbounded symbolic '
             'flows, capacities and attribute values; after up to two symbolically chosen changes; six families of names',
    'thorough': 'as quick with more symbolic arcs'}
OUTSIDE = 'negative flows, arcs without flow attribute; the layout of the text (spaces)'


def lines(text):
    return [x.split() for x in text.strip().split('\n') if x.strip()]


def report(h, directed, n, arcs, fixed=0, names='str', changes=0, den=1, what='flow', hi=None, fl=None):
    nm = namer(names)
    arcs = subset(h, [tuple(a) for a in arcs], fixed)
    g = new_graph(directed)
    nodes = list(range(n))
    for i in nodes:
        g.add_node(nm(i))
    val = {}
    for k, (i, j) in enumerate(arcs):
        f = fl[k] if fl and k < len(fl) and fl[k] is not None else h.num('f%d' % k, 0, hi, den)
        val[i, j] = (f, h.num('u%d' % k, 0, hi, den))
        g.add_edge(nm(i), nm(j), flow=val[i, j][0], capacity=val[i, j][1])
    for x in range(changes):
        o = h.choice('what%d' % x, 3)
        if o == 0 and arcs:
            a = arcs.pop(h.choice('edge%d' % x, len(arcs)))
            g.del_edge((nm(a[0]), nm(a[1])))
            if h.bool('back%d' % x):
                val[a] = (val[a][1], val[a][0])
                g.add_edge(nm(a[0]), nm(a[1]), flow=val[a][0], capacity=val[a][1])
                arcs.append(a)
        elif o == 1 and arcs:
            a = arcs[h.choice('edge%d' % x, len(arcs))]
            val[a] = (h.num('nf%d' % x, 0, hi, den), val[a][1])
            g.set_edge_attr(nm(a[0]), nm(a[1]), 'flow', val[a][0])
        elif o == 2 and nodes:
            v = nodes.pop(h.choice('node%d' % x, len(nodes)))
            g.del_node(nm(v))
            arcs = [a for a in arcs if v not in a]
    if what == 'flow':
        r = h.call('print_flow', g.print_flow)
        got = lines(h.out)
        got = [x for x in got if x[0].startswith('(')]
        want = [str((nm(i), nm(j))).split() + [str(val[i, j][0]), str(val[i, j][1])] for i, j in arcs if val[i, j][0] != 0]
        h.check('print_flow gives every arc that carries flow once, with its flow and capacity, and no other', sorted(got) == sorted(want))
        for i, j in arcs:
            h.check('print_flow changes nothing', AND(EQ(g.get_edge_attr(nm(i), nm(j), 'flow'), val[i, j][0]),
                                                      EQ(g.get_edge_attr(nm(i), nm(j), 'capacity'), val[i, j][1])))
        h.observe('lines', len(got))
    else:
        t = h.call('repr', lambda: repr(g))
        got = [x for x in t.split('\n') if x]
        want = []
        for v in nodes:
            nb = [b if a == v else a for a, b in arcs if a == v or b == v and not directed]
            if not directed:        # a loop is in the list of its node twice
                nb = [x for a, b in arcs for x in ([b] if a == v else []) + ([a] if b == v else [])]
            want.append(str(nm(v)) + ' -> ' + repr([nm(x) for x in nb]))
        h.check('the text of the graph gives every node once with its neighbours', sorted(x.split() for x in got) == sorted(x.split() for x in want))


def scenarios(tier):
    S = []
    T = tier == 'thorough'
    fam = ('str', 'mixed', 'int', 'neg', 'digit', 'big')

    def add(**k):
        S.append((report, k))
    for k, nk in enumerate(fam):
        d = k % 2 == 0
        add(directed=d, n=3, arcs=all_arcs(3)[:5] if d else all_edges(3, True)[:5], names=nk, fixed=0 if T else 1)
        add(directed=not d, n=3, arcs=[(0, 1), (2, 1), (0, 2)] + ([(1, 0), (2, 2)] if not d else [(2, 2)]), names=nk, fixed=2, changes=1)
        add(directed=d, n=3, arcs=all_arcs(3, True) if d else all_edges(3, True), names=nk, what='repr', hi=0)
        add(directed=not d, n=4, arcs=[(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)], names=nk, what='repr', changes=2, fixed=2, hi=0)
    add(directed=True, n=4, arcs=[(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)], names='str', den=4)
    add(directed=True, n=4, arcs=[(0, 1), (1, 2), (0, 2)], names='int', changes=2, fixed=2)
    for d in (True, False):
        add(directed=d, n=10, arcs=WIDE, names='ten', fixed=10, fl=[0, 1, 0, 2, None, 3, 12345, 0, 4, None])
        add(directed=d, n=10, arcs=HUBC, names='ten', fixed=9, what='repr', hi=0, changes=1)
        add(directed=d, n=10, arcs=WIDE, names='tens', fixed=6, what='repr', hi=0, changes=1)
    for d in (True, False):
        again(S, 'C39', 'report', 'edge', 'last', 'node', directed=d, n=4, arcs=[(0, 1), (1, 2), (2, 3), (0, 2)], names='str', fixed=3, what='repr', hi=0)
    othernames(S)
    return S
