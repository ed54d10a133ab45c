"""C22  BinaryTree: child slots, rejected insertions, deletion, node orders."""
from .common import *
from .C21 import Recorder

BOUNDS = {
    'quick': 'every history of the listed skeletons: up to 5 insertions at a symbolically chosen parent and side '
             '(a used slot must reject, and so must a name the tree has), up to 3 deletions of a symbolically chosen node with re-insertion afterwards, '
             'all print orders and priorities from every start node, bfs and dfs; eight families of names; trees '
             'of 11-13 nodes with 1-2 symbolic operations; names that '
             'are unbounded symbolic integers in the smaller histories',
    'thorough': 'as quick with up to 6 insertions and 3 deletions'}
OUTSIDE = 'add_child without a side, longer histories'


class Ref(object):
    def __init__(self):
        self.root = None
        self.slot = {}          # node -> [left, right]

    def copy(self):
        r = Ref()
        r.root = self.root
        r.slot = {k: list(v) for k, v in self.slot.items()}
        return r

    def under(self, s):
        return [s] + [x for c in self.slot[s] if c is not None for x in self.under(c)]


def verify(h, g, ref, nm, tag):
    nl = h.call('get_node_list', g.get_node_list)
    h.check(tag + 'the nodes are those of the history', len(nl) == len(ref.slot)
            and all(any(bool(x == nm(i)) for x in nl) for i in ref.slot))
    for i in ref.slot:
        for what, get, c in (('left', g.get_left_child, ref.slot[i][0]), ('right', g.get_right_child, ref.slot[i][1])):
            for arg in (nm(i), g.get_node(nm(i))):
                r = h.call('get_%s_child' % what, get, arg)
                h.check(tag + 'the %s slot holds exactly the node put there' % what,
                        (r is None) if c is None else (r is not None and bool(r == nm(c))))
        ch = h.call('get_children', g.get_children, nm(i))
        want = [c for c in ref.slot[i] if c is not None]
        h.check(tag + 'the children are those in the slots', len(ch) == len(want)
                and all(any(bool(x == nm(c)) for x in ch) for c in want))
    h.check(tag + 'root', (g.root is None) if ref.root is None else
            (g.root is not None and bool(g.root.name == nm(ref.root))))


def listing(ref, i, order, pri):
    a, b = ref.slot[i] if pri == 'L' else ref.slot[i][::-1]
    x = listing(ref, a, order, pri) if a is not None else []
    y = listing(ref, b, order, pri) if b is not None else []
    return [i] + x + y if order == 'pre' else x + [i] + y if order == 'in' else x + y + [i]


def history(h, ops, names='int', sym=False, script=(), look='print', final=True):
    """ops: A add to a chosen parent and side (free slot), B the same with a used slot allowed, X add a name the tree has,
    D delete a chosen node, r add the root again after a deletion, Q delete and re-use its name"""
    G = gp()
    g = G.BinaryTree(display='off')
    n = 1 + len(script) + len(ops)
    if sym:
        val = [h.int('x%d' % i) for i in range(n)]
        for i in range(n):
            for j in range(i):
                h.assume(val[i] != val[j])
        nm = lambda i: val[i]
    else:
        nm = namer(names)
    ref = Ref()
    free = list(range(n))

    def add(i, p, side):
        h.call('add child', g.add_right_child if side else g.add_left_child, nm(i), nm(p))
        ref.slot[p][side] = i
        ref.slot[i] = [None, None]

    def root():
        i = free.pop(0)
        h.call('add_root', g.add_root, nm(i))
        ref.root = i
        ref.slot[i] = [None, None]
    root()
    for p, side in script:
        add(free.pop(0), p, side)
    for k, op in enumerate(ops):
        nodes = sorted(ref.slot)
        if op == 'D':
            i = nodes[h.choice('d%d' % k, len(nodes))]
            h.call('del_node', g.del_node, nm(i))
            for s in ref.slot.values():
                for x in (0, 1):
                    if s[x] == i:
                        s[x] = None
            del ref.slot[i]
            if ref.root == i:
                ref.root = None
            free.append(i)
            if h.bool('again%d' % k):
                free.remove(i)
                free.insert(0, i)
            continue
        if not nodes or ref.root is None:
            root()
            continue
        p = nodes[h.choice('p%d' % k, len(nodes))]
        side = h.choice('s%d' % k, 2)
        if op == 'X':
            i = nodes[h.choice('have%d' % k, len(nodes))]
            h.raises('the name of a node of the tree is rejected', Exception,
                     g.add_right_child if side else g.add_left_child, nm(i), nm(p))
            verify(h, g, ref, nm, 'after a rejected name: ')
            continue
        if ref.slot[p][side] is not None:
            h.assume(op == 'B')
            before = ref.copy()
            h.raises('a used slot rejects a second child', Exception,
                     g.add_right_child if side else g.add_left_child, nm(free[0]), nm(p))
            verify(h, g, before, nm, 'after a rejected insertion: ')
        else:
            add(free.pop(0), p, side)
    verify(h, g, ref, nm, '')
    if not final or not ref.slot:
        return
    nodes = sorted(ref.slot)
    start = h.choice('start', len(nodes) + 1)
    if start == len(nodes):
        h.assume(ref.root is not None)
        start, args = ref.root, {}
    else:
        start = nodes[start]
        args = dict(root=nm(start))
    if look == 'print':
        for order in ('pre', 'in', 'post'):
            for pri in ('L', 'R'):
                h.call('print_nodes', g.print_nodes, order=order, priority=pri, **args)
                want = [str(nm(i)) for i in listing(ref, start, order, pri)]
                h.check('print_nodes lists the nodes in order (%s, %s)' % (order, pri), h.out.split() == want)
        h.call('print_nodes', g.print_nodes, **args)
        h.check('print_nodes prints in order, left first, by default',
                h.out.split() == [str(nm(i)) for i in listing(ref, start, 'in', 'L')])
        h.observe('out', [nodes.index(i) for i in listing(ref, start, 'in', 'L')])
    else:
        for how in ('bfs', 'dfs'):
            for pri in ('L', 'R', None):
                rec = g.display = Recorder()
                kw = dict(args)
                if pri:
                    kw['priority'] = pri
                h.call(how, getattr(g, how), display='on', **kw)
                seq = []
                for x in rec.seen:
                    m = [k for k in nodes if x is not None and len(x) == 1 and bool(nm(k) == x[0])]
                    seq += m[:1]
                h.check('one node is shown at a time', len(seq) == len(rec.seen))
                h.check('%s visits every node of the subtree exactly once' % how, sorted(seq) == sorted(ref.under(start)))
                if sorted(seq) != sorted(ref.under(start)):
                    continue
                if how == 'bfs':
                    lev, want = [start], []
                    while lev:
                        want += lev
                        lev = [c for v in lev for c in (ref.slot[v] if pri != 'R' else ref.slot[v][::-1]) if c is not None]
                    h.check('bfs visits level by level in the order of the priority', seq == want)
                else:
                    pos = {v: k for k, v in enumerate(seq)}
                    for v in seq:
                        ks = sorted(pos[u] for u in ref.under(v))
                        h.check('dfs visits a node first in its subtree and the subtree without interruption',
                                ks == list(range(pos[v], pos[v] + len(ks))))
                h.check('display mode', g.attr['display'] == 'off')
        h.observe('seq', seq)
    verify(h, g, ref, nm, 'after the listing: ')


FULL = [(0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (2, 1)]
WIDE = [(0, 0), (0, 1), (1, 1), (2, 0), (3, 0), (4, 1), (5, 0), (5, 1), (6, 0), (7, 1), (1, 0)]
PATH = [(i, i % 3 // 2) for i in range(10)]
ZIG = [(0, 1), (1, 0), (2, 1), (3, 0), (0, 0)]


def scenarios(tier):
    S = []
    T = tier == 'thorough'

    def add(**k):
        S.append((history, k))
    for k, nm in enumerate(['int', 'big', 'str', 'digit', 'mixed', 'neg']):
        add(ops='AAAA', names=nm)
        add(ops='AAB', names=nm)
        add(ops='AXA', names=nm)
        add(ops='AA', names=nm, script=FULL[:4 - k % 2], look='walk')
        add(ops='DA', names=nm, script=ZIG if k % 2 else FULL)
        add(ops='D', names=nm, script=FULL if k % 2 else ZIG, look='walk')
    add(ops='ADAD', names='int', script=[(0, 1)])
    add(ops='DDA', names='str', script=FULL[:4])
    add(ops='DDD', names='mixed', script=ZIG, final=False)
    add(ops='DAD', names='int', script=FULL[:4], final=False)
    add(ops='DAAD', names='neg', script=[(0, 0), (0, 1)], final=False)
    add(ops='AAB', sym=True)
    add(ops='ADA', sym=True, script=[(0, 0)], look='walk')
    add(ops='B', names='int')
    add(ops='X', names='str', script=FULL[:5])
    add(ops='AX', sym=True, script=[(0, 1)])
    add(ops='DX', names='int', script=FULL[:3], look='walk')
    # more than ten nodes
    for k, nm in enumerate(['ten', 'tens', 'str']):
        add(ops='DA', names=nm, script=WIDE, final=False)
        add(ops='AD', names=nm, script=PATH, final=False)
        add(ops='B', names=nm, script=(WIDE, PATH)[k % 2], look='walk')
        add(ops='D', names=nm, script=(PATH, WIDE)[k % 2])
    add(ops='DD', names='mixed', script=WIDE, look='walk', final=False)
    if T:
        for nm in ('int', 'str', 'mixed'):
            add(ops='AAAAA', names=nm)
            add(ops='AAAA', names=nm, look='walk')
            add(ops='ADADA', names=nm, script=FULL[:2])
            add(ops='DDDA', names=nm, script=FULL)
        add(ops='AABA', sym=True)
        add(ops='DADA', sym=True, script=FULL[:2], look='walk')
    othernames(S, ('float',))
    return S
