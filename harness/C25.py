"""C25  to_string: a DOT text with every node and edge exactly once."""
from .common import *
from . import dot

BOUNDS = {
    'quick': 'every graph with 3 nodes and symbolic subsets of graphs with 4-5 nodes, both types; every assignment of the '
             'nodes to none or one of up to 2 clusters (named by the user or automatically, with and without attributes, '
             'colliding names; up to 12 clusters on 10-14 nodes), deletion and re-insertion of a symbolically chosen node or edge after clustering; '
             'symbolic attribute values (unbounded integers) and text attributes; eight families of names',
    'thorough': 'as quick with 3 clusters, 5 nodes and two deletions'}
OUTSIDE = 'a node in two clusters, names that need more than quotes (C26), DOT keywords as names'


def namer2(kind):
    return (lambda i: 'n %d' % i) if kind == 'space' else namer(kind)


def text(h, directed, n, arcs, names='int', fixed=0, clusters=(), delete='', attrs='sym', gattr=None, again=False, where=None):
    """clusters: list of dicts name/attrs/nodes passed to create_cluster; delete: N node, E edge, A add back"""
    arcs = subset(h, [tuple(a) for a in arcs], fixed)
    nm = namer2(names)
    G = gp()
    g = new_graph(directed, **(gattr or {}))
    nattr, eattr = {}, {}

    def mkattr(tag):
        if attrs == 'sym':
            return dict(label=h.int(tag), shape='box')
        if attrs == 'text':
            return dict(label='two words %s' % tag, color='red', mine='x=%s;' % tag)
        if attrs == 'mixed':
            return dict(cost=h.int(tag), label='a "b" %s' % tag, width=0.5)
        if attrs == 'falsy':
            return dict(label='', width=0, note=None, cost=0.0, fixedsize=False)
        return {}
    for i in range(n):
        nattr[i] = mkattr('n%d' % i)
        g.add_node(nm(i), **nattr[i])
    for a in arcs:
        eattr[a] = mkattr('e%d_%d' % a)
        g.add_edge(nm(a[0]), nm(a[1]), **eattr[a])
    part = {i: h.choice('cl%d' % i, len(clusters) + 1) if where is None or where[i] is None else where[i] for i in range(n)} if clusters else {i: 0 for i in range(n)}
    spec = []
    for k, c in enumerate(clusters):
        members = [i for i in range(n) if part[i] == k + 1]
        args = dict(node_list=[nm(i) for i in members])
        ca = dict(c.get('attrs', {}))
        if 'name' in c:
            ca['name'] = c['name']
        if ca or 'attrs' in c:
            args['cluster_attrs'] = ca
        if 'nodes' in c:
            args['node_attrs'] = dict(c['nodes'])
        h.call('create_cluster', g.create_cluster, **args)
        spec.append([set(members), c])
    nodes = set(range(n))
    edges = list(arcs)
    gone, again_ = [], set()
    for k, op in enumerate(delete):
        if op == 'N':
            i = sorted(nodes)[h.choice('d%d' % k, len(nodes))]
            h.call('del_node', g.del_node, nm(i))
            nodes.discard(i)
            gone.append(i)
            edges = [e for e in edges if i not in e]
            for s in spec:
                s[0].discard(i)
        elif op == 'E' and edges:
            e = edges.pop(h.choice('d%d' % k, len(edges)))
            h.call('del_edge', g.del_edge, (nm(e[0]), nm(e[1])))
        elif op == 'A' and gone:
            i = gone.pop()
            again_.add(i)
            nattr[i] = mkattr('again%d' % i)
            h.call('add_node', g.add_node, nm(i), **nattr[i])
            nodes.add(i)
    for rep in range(1 + again):
        s = h.call('to_string', g.to_string)
        try:
            d = dot.parse(s)
        except dot.Bad:
            h.fail('to_string yields a text in the DOT language')
        h.check('the graph type is the one given', d['kind'] == ('digraph' if directed else 'graph'))
        inv = {str(nm(i)): i for i in range(n)}
        h.check('node statements name nodes of the graph', all(x[0] in inv for x in d['nodes']))
        got = [inv.get(x[0]) for x in d['nodes']]
        h.check('one statement for every node', sorted(got, key=repr) == sorted(nodes, key=repr))
        for name, at, cl in d['nodes']:
            i = inv.get(name)
            if i not in nodes:
                continue
            h.check('a node statement shows the attributes of the node',
                    at == {a: str(v) for a, v in nattr[i].items()})
            if not ('A' in delete and i in again_):
                home = [k for k, sp in enumerate(spec) if i in sp[0]]
                h.check('a node stands in its cluster and only there', (cl is None) == (not home))
        h.check('every arrow is that of the graph type', all(x[3] == ('->' if directed else '--') for x in d['edges']))
        ends = [(inv.get(x[0]), inv.get(x[1])) for x in d['edges']]
        norm = (lambda e: e) if directed else (lambda e: tuple(sorted(e, key=repr)))
        h.check('one statement for every edge', sorted(map(norm, ends), key=repr) == sorted(map(norm, edges), key=repr))
        want = {norm(e): {a: str(v) for a, v in eattr[e].items()} for e in edges}
        for e, x in zip(ends, d['edges']):
            if norm(e) in want:
                h.check('an edge statement shows the attributes of the edge', x[2] == want[norm(e)])
        h.check('one subgraph per cluster', len(d['clusters']) == len(spec))
        for name in d['clusters']:
            h.check('a cluster is a Graphviz cluster', name.startswith('cluster'))
        # every cluster of the history is found with its nodes and attributes
        left = dict(d['clusters'])
        for members, c in spec:
            for name, (ca, na) in sorted(left.items()):
                inside = {inv.get(x[0]) for x in d['nodes'] if x[2] == name}
                if members <= inside and inside <= members | again_ and all(ca.get(a) == str(v) for a, v in c.get('attrs', {}).items()) \
                        and na == {a: str(v) for a, v in c.get('nodes', {}).items()} \
                        and ('name' not in c or name == 'cluster_' + c['name']):
                    del left[name]
                    break
            else:
                h.check('a cluster shows its nodes and attributes', False)
        for a, v in (gattr or {}).items():
            if a in ('label', 'rankdir', 'bgcolor', 'size', 'dpi', 'nodesep'):
                h.check('graph attributes are shown', d['attrs'].get(a) == str(v))
        if gattr and 'name' in gattr:
            h.check('the graph name is shown', d['name'] == gattr['name'])
    h.observe('text', (d['kind'], sorted(got, key=repr), sorted(ends, key=repr)))


def scenarios(tier):
    S = []
    T = tier == 'thorough'

    def add(directed, n, arcs, **k):
        S.append((text, dict(directed=directed, n=n, arcs=arcs, **k)))
    A = dict(attrs=dict(label='first one', color='blue'), nodes=dict(shape='box', style='filled'))
    B = dict(name='mine', attrs=dict(label='x'))
    C = dict(name='c0')
    D = dict(attrs=dict(label='a-b', bgcolor='light blue', tooltip='1,2'), nodes=dict(fillcolor='#ff00ff'))
    E_ = dict(name='two words')
    fam = ('int', 'str', 'mixed', 'neg', 'digit', 'big', 'space')
    for k, nk in enumerate(fam):
        for d in (True, False):
            arcs = all_arcs(3) if d else all_edges(3)
            add(d, 3, arcs, names=nk, attrs=('sym', 'text', 'mixed', 'none')[k % 4], again=k == 0)
            add(d, 3, arcs, names=nk, attrs=('text', 'none', 'sym')[k % 3], clusters=[{}] if k % 2 else [A], fixed=3 if d else 0)
    for d in (True, False):
        a4 = [(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)]
        add(d, 4, a4, names='str', clusters=[A, B], fixed=2, attrs='none')
        add(d, 4, a4, names='int', clusters=[{}, {}], fixed=3, attrs='sym')
        add(d, 4, a4, names='mixed', clusters=[C, {}], fixed=3, attrs='none')
        add(d, 4, a4, names='mixed', clusters=[{}, B], fixed=3, attrs='none', delete='N')
        add(d, 4, a4, names='big', clusters=[{}], fixed=3, attrs='none', delete='NA')
        add(d, 4, a4, names='int', clusters=[A], fixed=3, attrs='text', delete='E')
        add(d, 3, [(0, 1), (1, 1), (2, 0)], names='str', clusters=[D], attrs='text')
        add(d, 3, [(0, 1), (2, 0)], names='space', clusters=[E_], attrs='none')
        add(d, 3, [(1, 0), (2, 1), (2, 0)], names='str', attrs='none', delete='NE')
        add(d, 2, [(1, 0)], names='str', attrs='text', gattr=dict(label='a title', rankdir='LR', size='6,6'))
        add(d, 2, [(1, 0)], names='str', attrs='none', gattr=dict(name='my graph', bgcolor='#123456'))
        add(d, 2, [(1, 0)], names='int', attrs='none', gattr=dict(name='plain', label='one'), clusters=[C, A])
        add(d, 2, [(1, 0)], names='str', attrs='falsy', gattr=dict(label='', dpi=0, nodesep=0.5))
        add(d, 3, [(1, 0), (2, 1), (1, 1)], names='neg', attrs='falsy', gattr=dict(bgcolor=''), delete='NA',
            clusters=[dict(attrs=dict(label=''), nodes=dict(shape='', width=0))])
        if T:
            add(d, 5, a4 + [(1, 4), (4, 2)], names='str', clusters=[A, B], fixed=4, attrs='none')
            add(d, 4, a4, names='mixed', clusters=[C, {}, {}], fixed=3, attrs='none')
            add(d, 4, a4, names='int', clusters=[{}, B], fixed=3, attrs='none', delete='NN')
            add(d, 4, all_arcs(4) if d else all_edges(4), names='str', attrs='none', fixed=2 if d else 0)
            add(d, 4, a4, names='int', clusters=[A, {}], attrs='mixed')
    # ten to fourteen nodes, up to twelve clusters
    for k, d in enumerate((True, False)):
        W = [1, 2, 0, 3, None, 3, 2, 1, 0, 4]
        add(d, 10, WIDE[:11], names='ten', clusters=[A, B, {}, D], fixed=8, attrs='none', where=W)
        add(d, 10, WIDE[:11], names='tens', clusters=[{}, B, A, {}], fixed=11, attrs='sym', where=W, delete='N')
        add(d, 10, WIDE[:11], names='ten', fixed=11, attrs='text', delete='EN')
        add(d, 14, WIDE[:9] + [(10, 11), (11, 13), (13, 2), (12, 10)], names='str', fixed=11, attrs='none', clusters=[{}] * 12,
            where=[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, None, 0], delete='' if k else 'N')
    add(True, 1, [], names='int', clusters=[A])
    add(False, 1, [(0, 0)], names='str')
    for d in (True, False):
        again(S, 'C25', 'text', directed=d, n=4, arcs=[(0, 1), (1, 2), (2, 3), (0, 2)], names='str', fixed=2)
        again(S, 'C25', 'text', 'edge', 'last', 'data', directed=d, n=4, arcs=[(0, 1), (1, 2), (2, 3), (0, 2)], names='int', fixed=3, clusters=[A, B], where=[1, 2, 2, 0])
    othernames(S)
    return S
