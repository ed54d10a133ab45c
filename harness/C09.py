"""C09  label_components labels the connected components of an undirected graph."""
from .common import *

BOUNDS = {
    'quick': 'all undirected graphs of up to 5 nodes (with loops up to 4), all subsets of 10 candidate edges on 7 '
             'nodes; repeated calls, calls after arbitrary additions and deletions; six families of names',
    'thorough': 'as quick plus all undirected graphs of 6 nodes'}
OUTSIDE = 'more nodes'


def verify(h, g, nm, n, arcs, tag=''):
    lab = components(n, arcs)
    got = [h.call('get_node_attr', g.get_node_attr, nm(i), 'component') for i in range(n)]
    h.observe('components' + tag, got)
    h.check('every node gets a component' + tag, all(c is not None for c in got))
    h.check('two nodes have the same label exactly if they are connected' + tag,
            all((got[i] == got[j]) == (lab[i] == lab[j]) for i in range(n) for j in range(n)))
    h.check('num_components is the number of components' + tag, g.num_components == len(set(lab)))
    h.check('labels are 0 .. num_components-1' + tag, set(got) == set(range(len(set(lab)))))


def label(h, n, arcs, fixed=0, names='int', twice=False):
    nm = namer(names)
    arcs = subset(h, [tuple(a) for a in arcs], fixed)
    g = build(h, False, n, arcs, nm)
    for rep in range(2 if twice else 1):
        h.call('label_components', g.label_components)
        verify(h, g, nm, n, arcs, ' (again)' if rep else '')
    h.check('the graph keeps its edges', g.get_edge_num() == len(arcs) and g.get_node_num() == n)


def changed(h, n, arcs, extra, names='int'):
    nm = namer(names)
    arcs = subset(h, [tuple(a) for a in arcs])
    g = build(h, False, n, arcs, nm)
    h.call('label_components', g.label_components)
    cur = list(arcs)
    for k, a in enumerate(arcs):
        if h.bool('del%d' % k):
            h.call('del_edge', g.del_edge, (nm(a[0]), nm(a[1])))
            cur.remove(a)
    for k, a in enumerate(extra):
        if h.bool('add%d' % k):
            g.add_edge(nm(a[0]), nm(a[1]))
            cur.append(tuple(a))
    if h.bool('grow'):
        g.add_node(nm(n))
        n += 1
    h.call('label_components', g.label_components)
    verify(h, g, nm, n, cur, ' (after a change)')


def directed_rejected(h):
    g = new_graph(True)
    g.add_edge(0, 1)
    h.raises('label_components on a directed graph is rejected', Exception, g.label_components)


def scenarios(tier):
    S = []

    def add(fn, **k):
        S.append((fn, k))
    for nk in ('int', 'big', 'str', 'mixed', 'neg'):
        add(label, n=3, arcs=all_edges(3, True), names=nk)
    add(label, n=4, arcs=all_edges(4, True), names='str')
    add(label, n=5, arcs=all_edges(5), names='one')
    add(label, n=5, arcs=all_edges(5)[::-1], names='big', twice=True)
    U7 = [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 6), (6, 0), (1, 4), (2, 5), (0, 3)]
    add(label, n=7, arcs=U7[::-1], names='int')
    add(label, n=8, arcs=[(0, 7), (6, 1), (2, 5), (4, 3), (7, 6), (5, 4), (3, 0), (1, 2)], names='str')
    add(changed, n=4, arcs=[(0, 1), (1, 2), (2, 3)], extra=[(0, 2), (3, 0)], names='int')
    add(changed, n=4, arcs=[(3, 1), (1, 0), (2, 3)], extra=[(0, 2), (3, 0), (2, 2)], names='str')
    add(directed_rejected)
    add(label, n=10, arcs=HUB, fixed=6, names='tens')
    add(label, n=10, arcs=WIDE, fixed=6, names='ten')
    add(label, n=10, arcs=WIDE[::-1], fixed=6, names='tens')
    if tier == 'thorough':
        add(label, n=6, arcs=all_edges(6))
        add(changed, n=5, arcs=all_edges(5)[:6], extra=all_edges(5)[6:])
    again(S, 'C09', 'label', 'edge', 'last', 'node', n=5, arcs=[(0, 1), (1, 2), (3, 4), (0, 2)], names='str')
    othernames(S)
    return S
