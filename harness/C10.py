"""C10  strongly connected components."""
from .common import *

BOUNDS = {
    'quick': 'all digraphs of 3 nodes with loops and of 4 nodes; all subsets of 10 candidate arcs on 5-7 nodes; '
             'repeated calls, label again after additions and deletions; five families of names',
    'thorough': 'as quick plus all digraphs of 4 nodes with loops and 2^16 digraphs of 5 nodes'}
OUTSIDE = 'more nodes; graphs deeper than the interpreter recursion limit (the algorithm is recursive)'


def verify(h, g, nm, n, arcs, tag=''):
    R = reach_sets(n, arcs)
    got = [h.call('get_node_attr', g.get_node_attr, nm(i), 'component') for i in range(n)]
    h.observe('components' + tag, got)
    h.check('every node gets a component' + tag, all(c is not None for c in got))
    h.check('two nodes share a label exactly if each reaches the other' + tag,
            all((got[i] == got[j]) == (j in R[i] and i in R[j]) for i in range(n) for j in range(n)))
    ncomp = len({min(j for j in range(n) if j in R[i] and i in R[j]) for i in range(n)})
    h.check('num_components is the number of strong components' + tag, g.num_components == ncomp)
    h.check('labels are 0 .. num_components-1' + tag, set(got) == set(range(ncomp)))


def strong(h, n, arcs, fixed=0, names='int', via='label', twice=False):
    nm = namer(names)
    arcs = subset(h, [tuple(a) for a in arcs], fixed)
    g = build(h, True, n, arcs, nm)
    f = g.label_strong_component if via == 'label' else g.tarjan
    for rep in range(2 if twice else 1):
        h.call('label_strong_component', f)
        verify(h, g, nm, n, arcs, ' (again)' if rep else '')


def changed(h, n, arcs, extra, names='int'):
    nm = namer(names)
    arcs = subset(h, [tuple(a) for a in arcs])
    g = build(h, True, n, arcs, nm)
    h.call('label_strong_component', g.label_strong_component)
    cur = list(arcs)
    for k, a in enumerate(arcs):
        if h.bool('del%d' % k):
            h.call('del_edge', g.del_edge, (nm(a[0]), nm(a[1])))
            cur.remove(a)
    for k, a in enumerate(extra):
        if h.bool('add%d' % k):
            g.add_edge(nm(a[0]), nm(a[1]))
            cur.append(tuple(a))
    if h.bool('grow'):
        g.add_node(nm(n))
        n += 1
    h.call('label_strong_component', g.label_strong_component)
    verify(h, g, nm, n, cur, ' (after a change)')


def empty(h):
    g = new_graph(True)
    if h.bool('grown'):
        g.add_edge(1, 2)
        h.call('label_strong_component', g.label_strong_component)
        g.del_node(1)
        g.del_node(2)
    h.call('label_strong_component', g.label_strong_component)
    h.check('a graph without nodes has no strong component', g.num_components == 0)


def scenarios(tier):
    S = [(empty, {})]

    def add(fn, **k):
        S.append((fn, k))
    for nk in ('int', 'big', 'str', 'mixed', 'neg'):
        add(strong, n=3, arcs=all_arcs(3, True), names=nk)
    add(strong, n=4, arcs=all_arcs(4), names='one')
    add(strong, n=4, arcs=all_arcs(4)[::-1], names='str')
    add(strong, n=3, arcs=all_arcs(3), via='tarjan', twice=True, names='big')
    D5 = [(0, 1), (1, 2), (2, 3), (3, 4), (4, 0), (2, 0), (4, 2), (1, 3), (3, 1), (0, 4)]
    D6 = [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3), (2, 3), (5, 0), (1, 4), (4, 1)]
    D7 = [(6, 5), (5, 4), (4, 6), (0, 1), (1, 2), (2, 3), (3, 0), (3, 6), (4, 1), (2, 5)]
    add(strong, n=5, arcs=D5)
    add(strong, n=6, arcs=D6, names='str')
    add(strong, n=7, arcs=D7)
    add(changed, n=4, arcs=[(0, 1), (1, 2), (2, 0), (2, 3)], extra=[(3, 0), (1, 0)], names='int')
    add(changed, n=4, arcs=[(3, 1), (1, 0), (0, 3), (2, 3)], extra=[(0, 2), (3, 2)], names='str')
    add(strong, n=10, arcs=HUBC, fixed=8, names='tens')
    add(strong, n=10, arcs=[(j, i) for i, j in HUBC], fixed=8, names='ten')
    add(strong, n=10, arcs=WIDEC, fixed=8, names='ten')
    add(strong, n=10, arcs=WIDEC[::-1], fixed=8, names='tens')
    if tier == 'thorough':
        add(strong, n=4, arcs=all_arcs(4, True))
        add(strong, n=5, arcs=all_arcs(5), fixed=4)
        add(strong, n=8, arcs=[(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 6), (6, 7), (7, 0), (3, 0), (7, 4), (5, 2), (2, 6), (6, 1)])
    again(S, 'C10', 'strong', 'edge', 'last', 'node', n=5, arcs=[(0, 1), (1, 2), (2, 0), (3, 4), (4, 3), (2, 3)], names='str', fixed=2)
    othernames(S)
    return S
