import copy
import pickle
from .common import *
from .container import history, compare, Ref

BOUNDS = {
    'quick': 'all histories of the listed skeletons, up to 5 operations after an empty graph, every argument an '
             'unbounded symbolic integer name (all equality patterns); directed and undirected; one or two symbolic operations '
             'on ten names after a scripted history of 14-27 operations',
    'thorough': 'as quick, with longer skeletons (up to 6 operations)'}
OUTSIDE = ('histories of more operations; names that are not integers in the symbolic part (C03/C04 use string and '
           'mixed names); tuple-named nodes')

Q = ['EED', 'EEED', 'EEEX', 'EEXE', 'EDE', 'NNED', 'EXED', 'NEDN', 'EEDE', 'ENXD', 'EDEX',
     'EEXEX', 'EEDED', 'EEDEX', 'EEEXD', 'EXEXE', 'NEEDE', 'EDEDE', 'NENEDN', 'EEEDD']
T = ['EEEED', 'EEEEX', 'EEEXE', 'EEEDE', 'EEEDX']


def kinds(h, directed, how, names='int'):
    """graphs made in other ways: a type computed at run time, no type, a copy, a pickle"""
    G = gp()
    nm = namer(names)
    kw = dict(display='off')
    if how == 'built':
        kw['type'] = ''.join(['di', 'graph'] if directed else ['gra', 'ph'])
    elif how != 'default':
        kw['type'] = G.DIRECTED_GRAPH if directed else G.UNDIRECTED_GRAPH
    g = h.call('Graph', G.Graph, **kw)
    ref = Ref(directed)
    arcs = subset(h, [(0, 1), (1, 0), (2, 2)] if directed else [(1, 0), (2, 2)])
    for i in range(3):
        g.add_node(nm(i))
        ref.add_node(nm(i))
    for i, j in arcs:
        h.call('add_edge', g.add_edge, nm(i), nm(j))
        ref.edges.append((nm(i), nm(j)))
    old = None
    if how == 'deepcopy':
        old, g = g, h.call('deepcopy', copy.deepcopy, g)
    elif how == 'pickle':
        old, g = g, h.call('pickle', lambda: pickle.loads(pickle.dumps(g)))
    before = ref.copy()
    compare(h, g, ref, 'made')
    if ref.edge(nm(1), nm(2)) is None:
        h.call('add_edge', g.add_edge, nm(1), nm(2))
        ref.edges.append((nm(1), nm(2)))
    if ref.edge(nm(0), nm(1)) is not None:
        h.raises('a second equal edge is rejected', G.MultipleEdgeException, g.add_edge, nm(0), nm(1))
        if not directed:
            h.raises('the same edge in the other direction is rejected', G.MultipleEdgeException, g.add_edge, nm(1), nm(0))
    compare(h, g, ref, 'grown')
    i = h.choice('del', 3)
    h.call('del_node', g.del_node, nm(i))
    ref.nodes = [z for z in ref.nodes if z != nm(i)]
    ref.edges = [e for e in ref.edges if nm(i) not in e]
    compare(h, g, ref, 'end')
    if directed:
        h.raises('a deleted node has no in-neighbours', KeyError, g.get_in_neighbors, nm(i))
    h.raises('a deleted node has no neighbours', KeyError, g.get_neighbors, nm(i))
    h.check('a deleted node is not found', g.get_node(nm(i)) is None)
    h.call('add_node', g.add_node, nm(i))
    ref.add_node(nm(i))
    compare(h, g, ref, 'node added again')
    if old is not None:
        compare(h, old, before, 'the original')
    h.observe('edges', sorted(g.get_edge_list(), key=repr))


LONG = ('N0 E01 E12 E20 E34 E45 X12 E53 E16 D4 E67 E71 N4 E47 X20 E88 E89 E92 E04 D6 E62 E23 X53 E95 E12 D0 E27').split()


def long(h, directed, last, names='ten', stop=None):
    """a scripted history on ten names, then operations whose kind and arguments are symbolic"""
    g = new_graph(directed)
    nm = namer(names)
    ref = Ref(directed)

    def do(op, i, j=None):
        x, y = nm(i), nm(j) if j is not None else None
        if op == 'N':
            ref.add_node(x)
            r = h.call('add_node', g.add_node, x)
            h.check('add_node returns the node', r is g.get_node(x))
        elif op == 'E':
            ref.add_node(x)
            ref.add_node(y)
            ref.edges.append((x, y))
            h.call('add_edge', g.add_edge, x, y)
        elif op == 'D':
            ref.nodes = [z for z in ref.nodes if z != x]
            ref.edges = [e for e in ref.edges if x not in e]
            h.call('del_node', g.del_node, x)
        else:
            e = ref.edge(x, y)
            ref.edges = [z for z in ref.edges if z is not e]
            h.call('del_edge', g.del_edge, (x, y))
    for s in LONG[:stop]:
        do(s[0], int(s[1]), int(s[2]) if len(s) > 2 else None)
    compare(h, g, ref, 'after the script')
    for k, op in enumerate(last):
        i = h.choice('x%d' % k, 11)
        j = h.choice('y%d' % k, 11) if op in 'EX' else None
        if op == 'N':
            h.assume(not ref.has(nm(i)))
        elif op == 'D':
            h.assume(ref.has(nm(i)))
        else:
            h.assume((ref.edge(nm(i), nm(j)) is None) == (op == 'E'))
        do(op, i, j)
    compare(h, g, ref, 'end')
    h.observe('edges', g.get_edge_list())


def scenarios(tier):
    ops = Q + (T if tier == 'thorough' else [])
    S = [(kinds, dict(directed=d, how=w, names=n)) for d in (True, False) for w, n in (
        ('literal', 'big'), ('built', 'str'), ('default', 'int'), ('deepcopy', 'mixed'), ('pickle', 'big'))
        if not (d and w == 'default')]
    for d in (True, False):
        for k, (last, stop) in enumerate((('E', None), ('X', None), ('D', None), ('N', None), ('DE', 26), ('XD', 23), ('DD', 22),
                                          ('EX', 14), ('XE', None), ('DXD', 26))):
            if len(last) == 2 and 'E' in last and tier != 'thorough':
                continue
            if len(last) == 3 and tier != 'thorough':
                continue
            S.append((long, dict(directed=d, last=last, stop=stop, names=('ten', 'tens', 'str', 'mixed', 'neg')[(k + d) % 5])))
    othernames(S)
    return S + [(history, dict(directed=d, ops=o, focus='ok')) for o in ops for d in (True, False)]
