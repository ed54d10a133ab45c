"""C21  Tree: structure of every construction history, traversal orders."""
from .common import *

BOUNDS = {
    'quick': 'every tree shape reachable with up to 6 nodes (each child attached to a symbolically chosen earlier node), '
             'all start nodes, rejected duplicate insertions, six families of names, names that are unbounded symbolic '
             'integers for up to 4 nodes; up to two nodes deleted from trees of 3-4 nodes and one name added again; scripted trees of 10-12 nodes with the last node or the deletions symbolic',
    'thorough': 'as quick with up to 8 nodes'}
OUTSIDE = 'a second add_root on the same tree, larger trees'


class Recorder(object):
    """stands in for Graph.display: what a traversal shows is what it visits"""

    def __init__(self):
        self.seen = []

    def __call__(self, highlight=None, *a, **k):
        self.seen.append(list(highlight) if highlight is not None else None)


def where(h, elems, x):
    m = [k for k in range(len(elems)) if bool(elems[k] == x)]
    h.check('a visited name is a node of the tree', len(m) == 1)
    return m[0] if m else 0


def depth(par, i):
    d = 0
    while par[i] is not None:
        i = par[i]
        d += 1
    return d


def below(par, s):
    """the nodes of the subtree of s"""
    out = []
    for i in sorted(par):
        j = i
        while j is not None and j != s:
            j = par[j]
        if j == s:
            out.append(i)
    return out


def verify(h, g, elems, par, tag):
    nl = h.call('get_node_list', g.get_node_list)
    h.check(tag + 'the nodes are those added', len(nl) == len(par)
            and all(any(bool(x == elems[i]) for x in nl) for i in par))
    for i in par:
        p = h.call('get_parent', g.get_parent, elems[i])
        if par[i] is None:
            h.check(tag + 'the root has no parent', p is None)
        else:
            h.check(tag + 'the parent is the one given', p is not None and bool(p == elems[par[i]]))
        ch = h.call('get_children', g.get_children, elems[i])
        want = [j for j in sorted(par) if par[j] == i]
        h.check(tag + 'the children are listed in insertion order', len(ch) == len(want)
                and all(bool(c == elems[j]) for c, j in zip(ch, want)))
    h.check(tag + 'edges join parents and children only', g.get_edge_num() == len(par) - 1)
    h.check(tag + 'the root is the node added as root', g.root is not None and bool(g.root.name == elems[0]))


def order_ok(h, seq, par, start, how):
    want = below(par, start)
    h.check('every node of the subtree is visited exactly once', sorted(seq) == want)
    if sorted(seq) != want:
        return
    pos = {v: k for k, v in enumerate(seq)}
    h.check('a node is visited after its parent', all(pos[par[v]] < pos[v] for v in seq if v != start))
    if how == 'bfs':
        h.check('bfs visits by increasing depth',
                all(depth(par, a) <= depth(par, b) for a, b in zip(seq, seq[1:])))
    else:
        for v in seq:
            sub = below(par, v)
            ks = sorted(pos[u] for u in sub)
            h.check('dfs finishes a subtree before it leaves it', ks == list(range(ks[0], ks[0] + len(ks))))


def tree(h, n, names='int', sym=False, dup=False, script=(), how='dfs', mode='method'):
    G = gp()
    g = G.Tree(display='off')
    if sym:
        val = [h.int('x%d' % i) for i in range(n)]
        for i in range(n):
            for j in range(i):
                h.assume(val[i] != val[j])
        nm = lambda i: val[i]
    else:
        nm = namer(names)
    par = {0: None}
    r = h.call('add_root', g.add_root, nm(0))
    h.check('add_root returns the root', r is not None and r is g.get_node(nm(0)))
    for i in range(1, n):
        p = script[i - 1] if i <= len(script) else h.choice('p%d' % i, i)
        r = h.call('add_child', g.add_child, nm(i), nm(p))
        par[i] = p
        h.check('add_child returns the child', r is not None and r is g.get_node(nm(i)))
    elems = [nm(i) for i in range(n)]
    verify(h, g, elems, par, '')
    if dup:
        i, p = h.choice('i', n), h.choice('p', n)
        h.raises('add_child of an existing name is rejected', (G.MultipleNodeException, G.MultipleEdgeException),
                 g.add_child, nm(i), nm(p))
        verify(h, g, elems, par, 'after a rejected add_child: ')
    start = h.choice('start', n + 1)
    rec = g.display = Recorder()
    if start == n:
        start, args = 0, {}
    else:
        args = dict(root=nm(start))
    if mode == 'traverse':
        from coinor.blimpy import Stack, Queue
        q = Queue() if how == 'bfs' else Stack()
        h.call('traverse', g.traverse, q=q, display='on', **args)
        h.check('the queue is empty afterwards', q.isEmpty())
    else:
        h.call(how, getattr(g, how), display='on', **args)
    h.check('one node is shown at a time', all(x is not None and len(x) == 1 for x in rec.seen))
    seq = [where(h, elems, x[0]) for x in rec.seen if x]
    order_ok(h, seq, par, start, how)
    verify(h, g, elems, par, 'after the traversal: ')
    h.observe('order', seq)


def history(h, n, drop, names='int', how='dfs', again=True, script=()):
    """nodes are deleted from the tree, and one name is added again"""
    G = gp()
    g = G.Tree(display='off')
    nm = namer(names)
    par, order = {0: None}, [0]
    h.call('add_root', g.add_root, nm(0))
    for i in range(1, n):
        par[i] = script[i - 1] if i <= len(script) else h.choice('p%d' % i, i)
        order.append(i)
        h.call('add_child', g.add_child, nm(i), nm(par[i]))
    for x in range(drop):
        d = order[h.choice('drop%d' % x, len(order))]
        for i in order:     # the answers then are not the answers later
            h.call('get_children', g.get_children, nm(i))
            h.call('get_parent', g.get_parent, nm(i))
        h.call('del_node', g.del_node, nm(d))
        order.remove(d)
        del par[d]
        for j in par:
            if par[j] == d:
                par[j] = None
    if again and order and d != 0:
        p = order[h.choice('p', len(order))]
        h.call('add_child', g.add_child, nm(d), nm(p))
        par[d] = p
        order.append(d)
    nl = h.call('get_node_list', g.get_node_list)
    h.check('the nodes are those left', len(nl) == len(order) and set(nl) == {nm(i) for i in order})
    for i in order:
        p = h.call('get_parent', g.get_parent, nm(i))
        h.check('the parent is the node it was added to, none when that one is gone',
                p is None if par[i] is None else p == nm(par[i]))
        ch = h.call('get_children', g.get_children, nm(i))
        h.check('the children left are listed in insertion order', ch == [nm(j) for j in order if par[j] == i])
    h.check('edges join parents and children only',
            g.get_edge_num() == sum(1 for i in order if par[i] is not None))
    if not order:
        return
    start = order[h.choice('start', len(order))]
    rec = g.display = Recorder()
    h.call(how, getattr(g, how), root=nm(start), display='on')
    inv = {nm(i): i for i in order}
    seq = [inv[x[0]] for x in rec.seen if x and x[0] in inv]
    h.check('one node that is left is shown at a time', len(seq) == len(rec.seen))
    order_ok(h, seq, par, start, how)
    h.observe('order', seq)


def scenarios(tier):
    S = []
    T = tier == 'thorough'
    fam = ['int', 'big', 'str', 'digit', 'mixed', 'neg']
    for k, nm in enumerate(fam):
        for how in ('dfs', 'bfs'):
            S.append((tree, dict(n=6 + T, names=nm, how=how, mode='traverse' if k == 1 else 'method')))
            S.append((tree, dict(n=4, names=nm, how=how, dup=True)))
    for how in ('dfs', 'bfs'):
        S.append((tree, dict(n=4, sym=True, how=how)))
        S.append((tree, dict(n=3, sym=True, how=how, dup=True)))
        S.append((tree, dict(n=1, names='int', how=how, dup=True)))
        S.append((tree, dict(n=8, script=[0, 0, 1, 1, 2], names='str', how=how)))
        S.append((tree, dict(n=8, script=[0, 1, 2, 3, 4], names='int', how=how)))
        for k, nm in enumerate(fam):
            S.append((history, dict(n=3 + (k < 2), drop=1 + (k < 2), names=nm, how=how)))
        for k, nm in enumerate(('ten', 'tens', 'str')):
            sc = ([0, 0, 0, 1, 1, 3, 6, 6, 2, 5], [0, 1, 2, 3, 4, 5, 6, 7, 8, 9], [0] * 5 + [2, 2, 7, 2, 4])[k]
            S.append((tree, dict(n=12, script=sc, names=nm, how=how)))
            S.append((tree, dict(n=11, script=sc, names=nm, how=how, dup=True, mode='traverse')))
            S.append((history, dict(n=11, drop=1, script=sc, names=nm, how=how)))
            S.append((history, dict(n=10, drop=2, script=sc, names=nm, how=how, again=False)))
        if T:
            S.append((history, dict(n=5, drop=2, names='str', how=how)))
            S.append((tree, dict(n=8, names='str', how=how)))
            S.append((tree, dict(n=5, sym=True, how=how)))
    othernames(S)
    return S
