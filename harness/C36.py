"""C36  graphs are independent of each other and of the data of the caller."""
import copy
from .common import *
from .C33 import alike

BOUNDS = {
    'quick': 'two objects of every ordered pair of Graph (directed, undirected), Tree, BinaryTree and DisjointSet, with every subset of the '
             'arcs of a triangle, unbounded symbolic costs and attribute values; before the first is used, the other one is made, changed or '
             'analysed in one of 4-9 ways chosen by the solver; calls that take lists, dictionaries or results of earlier calls; tree traversals stopped at any step',
    'thorough': 'as quick, with two uses of the other object'}
OUTSIDE = 'values of attributes that are themselves mutable, the lists get_neighbors and its relatives return, files and windows'


def make(h, kind, arcs, cost, nm, mid=None, big=()):
    """an object of the kind, `mid` is called when it is half built"""
    m = gp()
    big = [nm(i) for i in big]
    mid = mid or (lambda: None)
    if kind in ('directed', 'undirected'):
        g = new_graph(kind == 'directed', mine=1)
        g.add_node(nm(0), demand=1)
        g.add_node(nm(1), demand=0)
        mid()
        g.add_node(nm(2), demand=-1)
        for k, (i, j) in enumerate(arcs):
            g.add_edge(nm(i), nm(j), cost=cost[k], capacity=2)
        return g
    if kind == 'sets':
        g = m.DisjointSet(display='off')
        g.add([nm(0)] + big)
        mid()
        g.add([nm(1), nm(2)])
        return g
    g = m.Tree(display='off') if kind == 'tree' else m.BinaryTree(display='off')
    g.add_root(nm(0), cost=cost[0])
    mid()
    if kind == 'tree':
        g.add_child(nm(1), nm(0), cost=cost[1])
        g.add_child(nm(2), nm(0 if arcs[2:] else 1))
    else:
        g.add_right_child(nm(1), nm(0), cost=cost[1])
        if arcs[2:]:
            g.add_left_child(nm(2), nm(0))
    return g


def common(h, g, nm, w, x):
    """uses every class offers"""
    if w == 0:
        g.create_cluster([nm(0)])
        g.create_cluster([nm(1)], {'color': 'red'}, {'shape': 'box'})
    elif w == 1:
        g.set_node_attr(nm(0), 'mine', x)
        g.get_node(nm(1)).set_attr('cost', x)
        for e in g.get_edge_list():
            g.set_edge_attr(e[0], e[1], 'mine', x)
        g.attr['mine'] = x
        g.set_layout('circo')
    elif w == 2:
        g.set_display_mode('xdot')
        g.to_string()
        repr(g)
    else:
        return False
    return True


def use(h, kind, g, nm, w, x):
    if common(h, g, nm, w, x):
        return None
    w -= 3
    if kind == 'sets':
        return [lambda: g.union(nm(0), nm(2)), lambda: g.add([nm(3), nm(4)])][w]()
    if kind == 'tree':
        return [lambda: g.add_child(nm(3), nm(1)) and None, lambda: g.dfs(), lambda: g.bfs()][w]()
    if kind == 'binary':
        return [lambda: g.add_left_child(nm(3), nm(1)) and None, lambda: g.del_node(nm(1)), lambda: g.print_nodes()][w]()
    if w == 0:
        g.add_node(nm(3), cost=x)
        g.add_edge(nm(3), nm(0), cost=x)
        return None
    if w == 1:
        return g.del_node(nm(1))
    if w == 2:
        return g.search(nm(0), algo='BFS')
    if w == 3:
        return g.tarjan() if kind == 'directed' else g.label_components()
    if w == 4:
        return g.hamiltonian(nm(0), nm(2))
    if kind == 'directed':
        return g.max_flow(nm(0), nm(2), algo='BFS')
    return g.minimum_spanning_tree_kruskal()


USES = {'directed': 9, 'undirected': 9, 'tree': 6, 'binary': 6, 'sets': 5}


def seen(kind, g):
    """everything the object shows"""
    d = dict(nodes=g.get_node_list(), edges=sorted(g.get_edge_list(), key=repr), num=(g.get_node_num(), g.get_edge_num()),
             nb={v: list(g.get_neighbors(v)) for v in g.get_node_list()},
             na={v: dict(g.get_node(v).attr) for v in g.get_node_list()},
             ea={e: dict(g.edge_attr[e]) for e in g.get_edge_list()},
             ga={a: v for a, v in g.attr.items()}, layout=g.get_layout(), repr=repr(g), text=g.to_string())
    if kind != 'undirected':
        d['in'] = {v: list(g.get_in_neighbors(v)) for v in g.get_node_list()}
    if kind == 'tree':
        d['kids'] = {v: (list(g.get_children(v)), g.get_parent(v)) for v in g.get_node_list()}
        d['root'] = g.root.name
    if kind == 'binary':
        d['kids'] = {v: (g.get_left_child(v), g.get_right_child(v), g.get_parent(v)) for v in g.get_node_list()}
        d['root'] = g.root.name
    if kind == 'sets':
        d['find'] = {v: g.find(v) for v in g.get_node_list()}
    return d


def same(h, label, a, b):
    for k in a:
        h.check('%s: %s' % (label, k), alike(a[k], b[k]))


def apart(h, one, other, names='str', twice=False):
    nm = namer(names)
    arcs = subset(h, [(0, 1), (1, 2), (0, 2)])
    cost = [h.int('c%d' % k) for k in range(3)]
    x = h.int('x')
    if 'tree' in (one, other) or 'binary' in (one, other):
        h.assume(len(arcs) in (0, 3))
    w, v = h.choice('use', USES[other]), h.choice('then', USES[one])
    early = h.bool('early')
    v2 = h.choice('use2', USES[other]) if twice else None

    def run(meddle):
        B = []

        def between():
            if not meddle:
                return
            A = make(h, other, arcs, [x] * 3, nm, big=(5, 6, 7))
            h.call('the other object', use, h, other, A, nm, w, x)
            if v2 is not None:
                h.outcome('the other object', (Exception,), use, h, other, A, nm, v2, x)
        B = h.call('building', make, h, one, arcs, cost, nm, between if early else None)
        if not early:
            between()
        s = [h.call('looking', seen, one, B)]
        s.append({'result': h.outcome('use', (Exception,), use, h, one, B, nm, v, x)})
        if not s[1]['result'][0]:
            s[1]['result'] = (False, type(s[1]['result'][1]).__name__)
        s.append(h.call('looking', seen, one, B))
        return s
    a, b = run(False), run(True)
    same(h, 'a new %s does not depend on another object' % one, a[0], b[0])
    same(h, 'the use of a %s does not depend on another object' % one, a[1], b[1])
    same(h, 'a used %s does not depend on another object' % one, a[2], b[2])


def lent(h, what, names='str', directed=True):
    """what the caller passes in stays as it is; later changes of it do not reach the graph"""
    nm = namer(names)
    arcs = subset(h, [(0, 1), (1, 2), (0, 2), (2, 0)] if directed else [(0, 1), (1, 2), (0, 2)])
    cost = [h.int('c%d' % k) for k in range(len(arcs))]
    x = h.int('x')
    g = new_graph(directed)
    for i in range(3):
        g.add_node(nm(i), demand=0)
    for k, (i, j) in enumerate(arcs):
        g.add_edge(nm(i), nm(j), cost=cost[k], capacity=2, flow=1)
    if what == 'cluster':
        nl, ca, na = [nm(0), nm(1), nm(2)], {'color': 'red'}, {'shape': 'box'}
        if h.bool('named'):
            ca['name'] = 'mine'
        k = (list(nl), dict(ca), dict(na))
        h.call(what, g.create_cluster, nl, ca, na)
        g.del_node(nm(h.choice('gone', 3)))
        g.to_string()
        h.check('create_cluster leaves the lists and dictionaries of the caller alone', nl == k[0] and ca == k[1] and na == k[2])
        t = g.to_string()
        nl.append(nm(0)), ca.update(label='x'), na.update(label='y')
        h.check('later changes of the lists and dictionaries do not reach the graph', g.to_string() == t)
    elif what == 'attrs':
        d = {'cost': x, 'label': 'x'}
        k = dict(d)
        f = new_graph(directed, **d)
        f.add_node(nm(0), **d)
        f.add_edge(nm(0), nm(1), **d)
        T = gp().Tree(**d)
        T.add_root(nm(0), **d)
        T.add_child(nm(1), nm(0), **d)
        b = gp().BinaryTree(**d)
        b.add_root(nm(0), **d)
        b.add_left_child(nm(1), nm(0), **d)
        h.check('attributes passed as a dictionary leave it alone', alike(d, k))
        f.set_node_attr(nm(0), 'cost', 5), f.set_edge_attr(nm(0), nm(1), 'cost', 6), f.set_layout('circo')
        h.check('changes of the graph do not reach the dictionary', alike(d, k))
        d['cost'] = 7
        h.check('changes of the dictionary do not reach the graph',
                AND([g_ == w for g_, w in ((T.get_node_attr(nm(0), 'cost'), x), (b.get_node_attr(nm(1), 'cost'), x),
                                           (f.get_node_attr(nm(0), 'cost'), 5), (f.get_edge_attr(nm(0), nm(1), 'cost'), 6))]))
    elif what == 'lists':
        for q in ('get_node_list', 'get_edge_list'):
            r = getattr(g, q)()
            k = list(r)
            r.reverse()
            h.check('turning the result of %s round does not change the graph' % q, getattr(g, q)() == k)
            r = getattr(g, q)()
            r.append(nm(7))
            h.check('changing the result of %s does not change the graph' % q, getattr(g, q)() == k)
        s = [nm(0), nm(1)]
        D = gp().DisjointSet(display='off')
        D.add(s)
        D.add([nm(2)])
        D.union(nm(2), nm(1))
        h.check('DisjointSet.add leaves the list alone', s == [nm(0), nm(1)])
        s.append(nm(2)), s.reverse()
        h.check('later changes of the list do not reach the DisjointSet', D.find(nm(0)) == D.find(nm(1)) == D.find(nm(2))
                and len(D.get_node_list()) == 3)
    elif what == 'shortest':
        ok, d, nx = h.call('floyd_warshall', g.floyd_warshall)
        h.assume(bool(arcs))
        k = (dict(d), dict(nx))
        if h.bool('cycle'):
            h.assume(not ok)
            h.outcome(what, (Exception,), g.floyd_warshall_get_cycle, d, nx)
        else:
            h.assume(ok)
            h.outcome(what, (Exception,), g.floyd_warshall_get_path, d, nx, nm(0), nm(2))
        h.check('reading a path or cycle leaves the tables alone', alike(d, k[0]) and alike(nx, k[1]))
        g.set_edge_attr(nm(arcs[0][0]), nm(arcs[0][1]), 'cost', x)
        g.floyd_warshall()
        h.check('a later call leaves the tables alone', alike(d, k[0]) and alike(nx, k[1]))
    elif what == 'cycle':
        h.assume((2, 0) not in arcs and len(arcs) == 3)
        R = h.call('residual', g.create_residual_graph)
        c = [nm(0), nm(1), nm(2)]
        k = list(c)
        a = h.call(what, R.find_cycle_capacity, c)
        h.call(what, g.augment_cycle, a, c)
        h.check('the cycle stays as it was', c == k)
        h.check('the residual graph made before stays as it was', AND([EQ(R.get_edge_attr(nm(2), nm(0), 'capacity'), 1), EQ(a, 1)]))
    elif what == 'search':
        p = h.call('search', g.search, nm(0), algo='BFS')
        q = h.call('search', g.search, nm(0), algo='Dijkstra') if h.bool('second') else None
        k = copy.copy(p)
        h.call('search', g.search, nm(2), algo='DFS')
        h.call('hamiltonian', g.hamiltonian, nm(1))
        g.del_node(nm(2))
        h.check('predecessors returned before stay as they were', p == k)


class Stopped(Exception):
    pass


def interrupted(h, kind, other, names='str'):
    """the user stops a traversal (closes the window) at some step; the next one, of this or another tree, is complete"""
    nm = namer(names)
    shape = [(0, 1), (1, 2), (0, 2)] if h.bool('wide') else []
    how = ('traverse', 'dfs', 'bfs')[h.choice('how', 3)]
    then = ('traverse', 'dfs', 'bfs')[h.choice('then', 3)]
    left = [h.int('stop', 0, 3)]
    A = make(h, kind, shape, [1, 1, 1], nm)
    same = h.bool('same')
    B = A if same else make(h, other, [], [1, 1, 1], namer('neg'))

    def stop(highlight=None, *a, **k):
        if left[0] == 0:
            raise Stopped()
        left[0] = left[0] - 1
    A.display = stop
    h.outcome(how, (Stopped,), getattr(A, how), display='on')
    seen = []
    B.display = lambda highlight=None, *a, **k: seen.append(highlight[0])
    h.call(then, getattr(B, then), display='on')
    h.check('a traversal after an interrupted one visits every node of its tree once and nothing else',
            len(seen) == len(set(seen)) and set(seen) == set(B.get_node_list()))
    h.observe('seen', seen)


def scenarios(tier):
    T = tier == 'thorough'
    S = []
    fam = ('str', 'mixed', 'int', 'neg', 'digit', 'big')
    kinds = ('directed', 'undirected', 'tree', 'binary', 'sets')
    k = 0
    for a in kinds:
        for b in kinds:
            k += 1
            S.append((apart, dict(one=a, other=b, names=fam[k % 6], twice=T)))
    for a in ('tree', 'binary'):
        for b in ('tree', 'binary'):
            k += 1
            S.append((interrupted, dict(kind=a, other=b, names=fam[k % 6])))
    for w in ('cluster', 'attrs', 'lists', 'shortest', 'cycle', 'search'):
        k += 1
        S.append((lent, dict(what=w, names=fam[k % 6])))
        if w in ('cluster', 'attrs', 'lists', 'search'):
            S.append((lent, dict(what=w, names=fam[(k + 1) % 6], directed=False)))
    othernames(S)
    return S
