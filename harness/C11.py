"""C11  dfs(): discovery/finishing times, topological order, transpose pass."""
from .common import *

BOUNDS = {
    'quick': 'all digraphs of 3 nodes with loops and of 4 nodes, all undirected graphs of 4 nodes, all subsets of 10 '
             'candidate arcs on 5-7 nodes; single root, repeated and full multi-root passes with carried counters; the two-pass '
             'strong component labelling with transpose=True; six families of names',
    'thorough': 'as quick plus all DAGs of 5 nodes in two insertion orders and more digraphs of 5 nodes'}
OUTSIDE = 'more nodes; recursion depth beyond the interpreter limit'


def stamps(h, g, nm, nodes, arcs, tag):
    disc = {i: g.get_node_attr(nm(i), 'disc_time') for i in nodes}
    fin = {i: g.get_node_attr(nm(i), 'finish_time') for i in nodes}
    h.observe('disc' + tag, disc)
    h.observe('fin' + tag, fin)
    h.check('every visited node has both times' + tag,
            all(v is not None for v in list(disc.values()) + list(fin.values())))
    return disc, fin


def dfs_shape(h, disc, fin, arcs, tag=''):
    h.check('no arc leads from a finished node to one discovered later' + tag,
            all(not (disc[u] < disc[v] and fin[u] < fin[v]) for u, v in arcs if u in disc and v in disc))


def single(h, directed, n, arcs, fixed=0, names='int', pick=False):
    nm = namer(names)
    arcs = subset(h, [tuple(a) for a in arcs], fixed)
    g = build(h, directed, n, arcs, nm)
    s = h.choice('root', n) if pick else 0
    R = reach(n, arcs, s, directed)
    order = []
    pred = {}
    r = h.call('dfs', g.dfs, nm(s), topological_order=order, component=7, pred=pred)
    h.observe('result', r)
    idx = {nm(i): i for i in range(n)}
    disc, fin = stamps(h, g, nm, sorted(R), arcs, '')
    h.check('nodes not reachable from the root are not touched',
            all(g.get_node_attr(nm(i), 'disc_time') is None and g.get_node_attr(nm(i), 'finish_time') is None and
                g.get_node_attr(nm(i), 'component') is None for i in range(n) if i not in R))
    h.check('reachable nodes get the component number', all(g.get_node_attr(nm(i), 'component') == 7 for i in R))
    h.check('discovery times are 1..k', sorted(disc.values()) == list(range(1, len(R) + 1)))
    h.check('finishing times are 1..k', sorted(fin.values()) == list(range(1, len(R) + 1)))
    h.check('the root is discovered first and finished last', disc[s] == 1 and fin[s] == len(R))
    both = arcs if directed else arcs + [(j, i) for i, j in arcs]
    dfs_shape(h, disc, fin, both)
    h.check('dfs returns the discovery count and the next finishing time', tuple(r) == (len(R), len(R) + 1))
    o = [idx[x] for x in order]
    h.check('topological_order lists the visited nodes by decreasing finishing time',
            o == sorted(R, key=lambda i: -fin[i]))
    p = {idx[a]: idx[b] for a, b in pred.items()}
    h.check('predecessors are arcs to the nodes visited, discovered before them',
            set(p) == R - {s} and all((b, a) in both and disc[b] < disc[a] and fin[a] < fin[b] for a, b in p.items()))


def restart(h, directed, n, arcs, fixed=0, names='int'):
    """a node is new exactly as long as it has no discovery time: a pass can
    be repeated from another root after the times are taken back"""
    nm = namer(names)
    arcs = subset(h, [tuple(a) for a in arcs], fixed)
    g = build(h, directed, n, arcs, nm)
    both = arcs if directed else arcs + [(j, i) for i, j in arcs]
    for rep in range(2):
        s = h.choice('root%d' % rep, n)
        R = reach(n, arcs, s, directed)
        r = h.call('dfs', g.dfs, nm(s))
        tag = ' (pass %d)' % (rep + 1)
        disc, fin = stamps(h, g, nm, sorted(R), arcs, tag)
        h.check('discovery times are 1..k' + tag, sorted(disc.values()) == list(range(1, len(R) + 1)))
        h.check('finishing times are 1..k' + tag, sorted(fin.values()) == list(range(1, len(R) + 1)))
        h.check('the root is discovered first and finished last' + tag, disc[s] == 1 and fin[s] == len(R))
        dfs_shape(h, disc, fin, both, tag)
        for i in range(n):
            g.set_node_attr(nm(i), 'disc_time', None)


def full(h, n, arcs, fixed=0, names='int', kosaraju=True):
    nm = namer(names)
    arcs = subset(h, [tuple(a) for a in arcs], fixed)
    g = build(h, True, n, arcs, nm)
    idx = {nm(i): i for i in range(n)}
    R = reach_sets(n, arcs)
    order = []
    d, f = 0, 1
    for i in range(n):
        if g.get_node_attr(nm(i), 'disc_time') is None:
            d, f = h.call('dfs', g.dfs, nm(i), d, f, topological_order=order)
    disc, fin = stamps(h, g, nm, list(range(n)), arcs, '')
    h.check('times are 1..n over all roots',
            sorted(disc.values()) == list(range(1, n + 1)) and sorted(fin.values()) == list(range(1, n + 1)))
    dfs_shape(h, disc, fin, arcs)
    o = [idx[x] for x in order]
    h.check('topological_order contains every node once', sorted(o) == list(range(n)))
    pos = {v: k for k, v in enumerate(o)}
    acyclic = not any(u in R[v] for u, v in arcs)
    if acyclic:
        h.check('on an acyclic graph every arc goes forward in topological_order',
                all(pos[u] < pos[v] for u, v in arcs))
    if kosaraju:
        c = 0
        for v in sorted(range(n), key=lambda i: -fin[i]):
            if g.get_node_attr(nm(v), 'component') is None:
                h.call('dfs(transpose)', g.dfs, nm(v), component=c, transpose=True)
                c += 1
        got = [g.get_node_attr(nm(i), 'component') for i in range(n)]
        h.observe('kosaraju', got)
        h.check('a second pass along reversed arcs labels the strong components',
                all((got[i] == got[j]) == (j in R[i] and i in R[j]) for i in range(n) for j in range(n)))


def undirected(h, n, arcs, names='int'):
    """both passes on an undirected graph: transposing changes nothing"""
    nm = namer(names)
    arcs = subset(h, [tuple(a) for a in arcs])
    g = build(h, False, n, arcs, nm)
    d, f = 0, 1
    for i in range(n):
        if g.get_node_attr(nm(i), 'disc_time') is None:
            d, f = h.call('dfs', g.dfs, nm(i), d, f)
    disc, fin = stamps(h, g, nm, list(range(n)), arcs, '')
    h.check('times are 1..n over all roots',
            sorted(disc.values()) == list(range(1, n + 1)) and sorted(fin.values()) == list(range(1, n + 1)))
    dfs_shape(h, disc, fin, arcs + [(j, i) for i, j in arcs])
    c = 0
    for v in sorted(range(n), key=lambda i: -fin[i]):
        if g.get_node_attr(nm(v), 'component') is None:
            h.call('dfs(transpose)', g.dfs, nm(v), component=c, transpose=True)
            c += 1
    got = [g.get_node_attr(nm(i), 'component') for i in range(n)]
    lab = components(n, arcs)
    h.observe('components', got)
    h.check('the second pass labels the connected components',
            all((got[i] == got[j]) == (lab[i] == lab[j]) for i in range(n) for j in range(n)))


def scenarios(tier):
    S = []

    def add(fn, **k):
        S.append((fn, k))
    for nk in ('int', 'big', 'str', 'mixed'):
        add(full, n=3, arcs=all_arcs(3, True), names=nk)
        add(single, directed=True, n=3, arcs=all_arcs(3, True), names=nk, pick=True)
    add(restart, directed=True, n=3, arcs=all_arcs(3, True))
    add(restart, directed=False, n=4, arcs=all_edges(4), names='str')
    add(full, n=4, arcs=all_arcs(4), names='neg')
    add(undirected, n=4, arcs=all_edges(4, True), names='str')
    add(undirected, n=5, arcs=[(0, 1), (3, 2), (2, 4), (4, 0), (1, 3), (0, 2), (4, 3)], names='big')
    add(single, directed=True, n=4, arcs=all_arcs(4), names='str')
    add(single, directed=False, n=4, arcs=all_edges(4, True), names='one', pick=True)
    D5 = [(0, 1), (1, 2), (2, 3), (3, 4), (4, 0), (2, 0), (4, 2), (1, 3), (3, 1), (0, 4)]
    D6 = [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3), (2, 3), (5, 0), (1, 4), (4, 1)]
    A5 = [(4, 0), (0, 2), (2, 1), (4, 2), (0, 1), (3, 2), (4, 3), (3, 0), (1, 5), (5, 2)]
    A6 = [(5, 0), (0, 3), (3, 1), (5, 2), (2, 1), (1, 4), (2, 3), (5, 4), (0, 4), (3, 4)]
    add(full, n=5, arcs=D5)
    add(full, n=6, arcs=D6, names='str')
    add(full, n=6, arcs=A5, names='big')
    add(full, n=6, arcs=A6, names='mixed')
    for A, n in ((D5, 5), (D6, 6), (A6, 6)):
        add(single, directed=True, n=n, arcs=A)
        add(single, directed=False, n=n, arcs=[a for a in A if (a[1], a[0]) not in A or a[0] < a[1]], names='str')
    for d in (True, False):
        add(single, directed=d, n=10, arcs=HUBC, fixed=9, names='tens')
        add(single, directed=d, n=10, arcs=WIDEC, fixed=9, names='ten')
    add(full, n=10, arcs=[(j, i) for i, j in HUBC], fixed=9, names='ten')
    add(full, n=10, arcs=WIDEC[::-1], fixed=9, names='tens')
    add(full, n=10, arcs=WIDE, fixed=8, names='ten')
    if tier == 'thorough':
        add(full, n=5, arcs=all_arcs(5), fixed=5)
        E = [(j, i) for i in range(5) for j in range(i + 1, 5)]
        add(full, n=5, arcs=E)
        add(full, n=5, arcs=E[::-1], names='str')
        add(single, directed=False, n=5, arcs=all_edges(5), pick=True)
    othernames(S)
    return S
