"""C03  attributes: what was set is what is read, for that item only."""
from .common import *

BOUNDS = {
    'quick': 'graphs of 3 nodes and up to 4 edges (all symbolic subsets), one or two writes to symbolically chosen '
             'items, attribute values unbounded integers (and, one at a time, nine values of other types), five families of node names; the same on graphs of ten nodes with the last arcs symbolic; items made without attributes in two graphs, two writes to chosen items',
    'thorough': 'as quick with 4 nodes and 5 edges'}
OUTSIDE = 'attribute names that collide with parameter names of the API (name, n, m, self)'


def attributes(h, directed, n, arcs, fixed=0, names='big', writes=1, churn=False):
    nm = namer(names)
    arcs = subset(h, [tuple(a) for a in arcs], fixed)
    g = new_graph(directed, comment='x')
    nv, ev = {}, {}
    for i in range(n):
        v = h.int('a%d' % i)
        h.call('add_node', g.add_node, nm(i), weight=v)
        nv[i] = {'weight': v}
    shared = {'cost': h.int('shared')}
    for k, (i, j) in enumerate(arcs):
        v = h.int('c%d' % k)
        h.call('add_edge', g.add_edge, nm(i), nm(j), tag=v, **shared)
        ev[i, j] = {'cost': shared['cost'], 'tag': v}
    for w in range(writes):
        v = h.int('w%d' % w)
        what = h.choice('what%d' % w, 2 if arcs else 1)
        attr = ('cost', 'tag', 'fresh', 'weight', 'label')[h.choice('attr%d' % w, 5)]
        if what == 0:
            i = h.choice('node%d' % w, n)
            if h.bool('via%d' % w):
                h.call('Node.set_attr', g.get_node(nm(i)).set_attr, attr, v)
            else:
                h.call('set_node_attr', g.set_node_attr, nm(i), attr, v)
            nv[i][attr] = v
        else:
            k = h.choice('edge%d' % w, len(arcs))
            i, j = arcs[k]
            ev[i, j][attr] = v
            if not directed and h.bool('flip%d' % w):
                i, j = j, i
            h.call('set_edge_attr', g.set_edge_attr, nm(i), nm(j), attr, v)
    if churn and len(arcs) > 1:
        # delete one edge and insert it again: it starts with no old attributes
        k = h.choice('gone', len(arcs))
        i, j = arcs[k]
        h.call('del_edge', g.del_edge, (nm(i), nm(j)))
        again = h.int('again')
        h.call('add_edge', g.add_edge, nm(i), nm(j), cost=again)
        ev[i, j] = {'cost': again}
        h.check('a re-inserted edge has only its new attributes',
                dict(g.edge_attr[nm(i), nm(j)]).keys() == {'cost'})
    ATTR = ('cost', 'tag', 'fresh', 'weight', 'label')
    for i in range(n):
        for a in ATTR:
            got = h.call('get_node_attr', g.get_node_attr, nm(i), a)
            want = nv[i].get(a)
            h.check('get_node_attr returns the last value set (None if never set)',
                    (got is None) if want is None else (got is not None and EQ(got, want)))
            h.observe('n%d%s' % (i, a), got)
    for i, j in arcs:
        for a in ATTR:
            for x, y in [(i, j)] + ([] if directed else [(j, i)]):
                want = ev[i, j].get(a)
                if want is None:
                    h.raises('reading an attribute the edge never had raises KeyError', KeyError,
                             g.get_edge_attr, nm(x), nm(y), a)
                else:
                    got = h.call('get_edge_attr', g.get_edge_attr, nm(x), nm(y), a)
                    h.check('get_edge_attr returns the last value set, in either orientation if undirected',
                            EQ(got, want))
                    if a == 'cost':
                        h.check('get_edge_cost', EQ(h.call('get_edge_cost', g.get_edge_cost, (nm(x), nm(y))), want))
    for i in range(n):
        for j in range(n):
            if not any(e == (i, j) or (not directed and e == (j, i)) for e in arcs):
                h.raises('writing to a missing edge raises KeyError', KeyError,
                         g.set_edge_attr, nm(i), nm(j), 'cost', 1)
                h.check('writing to a missing edge does not create it', not g.check_edge(nm(i), nm(j)))
    other = new_graph(directed)
    h.check('a new graph starts empty', other.get_node_num() == 0 and other.get_edge_num() == 0)
    other.add_node(nm(0))
    h.check('nodes of different graphs share no attributes', other.get_node_attr(nm(0), 'weight') is None)


def survivors(h, directed, n, arcs, names='big', fixed=0):
    """deleting a node or an edge keeps all other attributes"""
    nm = namer(names)
    arcs = subset(h, [tuple(a) for a in arcs], fixed)
    g = new_graph(directed)
    nv = [h.int('a%d' % i) for i in range(n)]
    ev = [h.int('c%d' % k) for k in range(len(arcs))]
    for i in range(n):
        g.add_node(nm(i), weight=nv[i])
    for k, (i, j) in enumerate(arcs):
        g.add_edge(nm(i), nm(j), cost=ev[k])
    d = h.choice('del', n)
    if h.bool('edge') and arcs:
        x = h.choice('which', len(arcs))
        i, j = arcs[x]
        if not directed and h.bool('flip'):
            i, j = j, i
        h.call('del_edge', g.del_edge, (nm(i), nm(j)))
        left = [k for k in range(len(arcs)) if k != x]
        nodes = list(range(n))
    else:
        h.call('del_node', g.del_node, nm(d))
        left = [k for k in range(len(arcs)) if d not in arcs[k]]
        nodes = [i for i in range(n) if i != d]
        h.check('get_node of a deleted node is None', g.get_node(nm(d)) is None)
    h.check('the others are still there', g.get_node_num() == len(nodes) and g.get_edge_num() == len(left))
    for i in nodes:
        h.check('node attributes survive', EQ(h.call('get_node_attr', g.get_node_attr, nm(i), 'weight'), nv[i]))
    for k in left:
        i, j = arcs[k]
        h.check('edge attributes survive', EQ(h.call('get_edge_attr', g.get_edge_attr, nm(i), nm(j), 'cost'), ev[k]))
    if len(nodes) < n:
        h.call('add_node', g.add_node, nm(d))
        h.check('a re-inserted node starts without attributes and edges',
                g.get_node_attr(nm(d), 'weight') is None and g.get_neighbors(nm(d)) == [])


def palette(h, name):
    """a value of some type, truthy or not"""
    k = h.choice(name, 10)
    if k == 9:
        return h.int(name + 'v')
    return (None, 0.0, 0, False, True, '', 'x y', [], ('a', 1))[k]


def same(got, want):
    if type(want) in (int, Sym):
        return EQ(got, want)
    return type(got) is type(want) and got == want


def values(h, directed, names='str'):
    """values of every type are kept, those that count as false too"""
    nm = namer(names)
    g = new_graph(directed)
    a, b, c = palette(h, 'a'), palette(h, 'b'), h.int('c')
    if h.bool('early'):
        h.call('add_node', g.add_node, nm(0), weight=a)
        h.call('add_node', g.add_node, nm(1))
        h.call('add_edge', g.add_edge, nm(0), nm(1), cost=b, tag=c)
    else:
        h.call('add_edge', g.add_edge, nm(0), nm(1), cost=c, tag=c)
        h.call('set_node_attr', g.set_node_attr, nm(0), 'weight', c)
        h.call('set_node_attr', g.set_node_attr, nm(0), 'weight', a)
        h.call('set_edge_attr', g.set_edge_attr, nm(0), nm(1), 'cost', b)
    got = h.call('get_node_attr', g.get_node_attr, nm(0), 'weight')
    h.check('get_node_attr returns the value as it was given', same(got, a))
    h.check('Node.get_attr returns the value as it was given', same(h.call('get_attr', g.get_node(nm(0)).get_attr, 'weight'), a))
    h.check('the other node has no such attribute', h.call('get_node_attr', g.get_node_attr, nm(1), 'weight') is None)
    for x, y in [(0, 1)] + ([] if directed else [(1, 0)]):
        h.check('get_edge_attr returns the value as it was given',
                same(h.call('get_edge_attr', g.get_edge_attr, nm(x), nm(y), 'cost'), b))
        h.check('get_edge_attr of the other attribute', same(h.call('get_edge_attr', g.get_edge_attr, nm(x), nm(y), 'tag'), c))
    h.observe('weight', got)


def bare(h, directed, n, arcs, names='str', given=False):
    """items made without attributes, in two graphs: a write reaches one item only"""
    nm = namer(names)
    arcs = [tuple(a) for a in arcs]
    graphs = []
    for r in range(2):
        g = new_graph(directed)
        if given:
            for i in range(n):
                h.call('add_node', g.add_node, nm(i))
        for i, j in arcs:
            h.call('add_edge', g.add_edge, nm(i), nm(j))
        graphs.append(g)
    items = [(r, i) for r in range(2) for i in range(n)] + [(r, a) for r in range(2) for a in arcs]
    was = {}
    for r, x in items:
        keys = graphs[r].get_node(nm(x)).attr if isinstance(x, int) else graphs[r].edge_attr[nm(x[0]), nm(x[1])]
        was[r, x] = set(keys)
    wrote = {}
    for w, a in enumerate(('cost', 'fresh')):
        r, x = items[h.choice('item%d' % w, len(items))]
        v = h.int('w%d' % w)
        wrote[(r, x), a] = v
        if isinstance(x, int):
            h.call('set_node_attr', graphs[r].set_node_attr, nm(x), a, v)
        elif w and not directed:
            h.call('set_edge_attr', graphs[r].set_edge_attr, nm(x[1]), nm(x[0]), a, v)
        else:
            h.call('set_edge_attr', graphs[r].set_edge_attr, nm(x[0]), nm(x[1]), a, v)
    for r, x in items:
        g = graphs[r]
        for a in ('cost', 'fresh'):
            if ((r, x), a) in wrote:
                got = (h.call('get_node_attr', g.get_node_attr, nm(x), a) if isinstance(x, int)
                       else h.call('get_edge_attr', g.get_edge_attr, nm(x[0]), nm(x[1]), a))
                h.check('the value written is read back', got is not None and EQ(got, wrote[(r, x), a]))
        keys = g.get_node(nm(x)).attr if isinstance(x, int) else g.edge_attr[nm(x[0]), nm(x[1])]
        h.check('an item has the attributes written for it and no others',
                set(keys) == was[r, x] | {a for (y, a) in wrote if y == (r, x)})


def scenarios(tier):
    S = []
    for d in (True, False):
        L = [(0, 1), (1, 2), (0, 0), (2, 2)]
        for nk in ('str', 'int', 'one', 'mixed'):
            S.append((bare, dict(directed=d, n=3, arcs=L, names=nk, given=nk in ('int', 'one'))))
        S.append((bare, dict(directed=d, n=10, arcs=WIDE[:11], names='ten')))
    for d in (True, False):
        for nk in ('str', 'int'):
            S.append((values, dict(directed=d, names=nk)))
        A = [(0, 1), (1, 2), (2, 0), (1, 1)]
        for nk in ('int', 'big', 'str', 'mixed', 'neg'):
            S.append((attributes, dict(directed=d, n=3, arcs=A, names=nk)))
            S.append((survivors, dict(directed=d, n=3, arcs=A + ([(1, 0), (0, 2)] if d else []), names=nk)))
        S.append((attributes, dict(directed=d, n=3, arcs=A[:3], fixed=2, writes=2)))
        S.append((attributes, dict(directed=d, n=3, arcs=A[:3], fixed=1, churn=True, names='str')))
        for nk in ('ten', 'tens', 'str'):
            S.append((survivors, dict(directed=d, n=10, arcs=(WIDEC if d else WIDE), names=nk, fixed=11)))
        S.append((attributes, dict(directed=d, n=10, arcs=WIDE[:11], names='ten', fixed=10)))
        if tier == 'thorough':
            S.append((attributes, dict(directed=d, n=3, arcs=A, writes=2)))
            S.append((survivors, dict(directed=d, n=4, arcs=[(0, 1), (1, 2), (2, 3), (3, 0), (0, 2), (1, 1)])))
    othernames(S)
    return S
