"""C20  DisjointSet: representatives are equal exactly for united elements."""
from .common import *

BOUNDS = {
    'quick': 'every history of the listed skeletons: up to 6 elements added in lists of 1-4, up to 5 unions/finds on '
             'symbolically chosen elements, with and without optimisation; further lists added in between; elements '
             'that are unbounded symbolic integers in the smaller histories; eight families of names; up to 16 '
             'elements after 2-11 scripted unions',
    'thorough': 'as quick with up to 6 unions'}
OUTSIDE = 'adding an element twice (not a documented use), longer histories'


def verify(h, g, elems, parent, n, tag):
    rep = [h.call('find', g.find, elems[i]) for i in range(n)]
    where = {}
    for i in range(n):
        m = [k for k in range(n) if bool(elems[k] == rep[i])]
        h.check('the representative is one of the elements', len(m) == 1)
        where[i] = m[0]
        h.check('the representative is an element of the same set', root(parent, m[0]) == root(parent, i))
    h.check('representatives are equal exactly for united elements' + tag,
            all((where[i] == where[j]) == (root(parent, i) == root(parent, j)) for i in range(n) for j in range(i)))
    return where


def root(parent, i):
    while parent[i] != i:
        i = parent[i]
    return i


def history(h, lists, ops, optimize, names='int', later=None, sym=False, default=False, script=()):
    """ops: U union of two chosen elements, F find of one, A add the list `later`, V verify all"""
    G = gp()
    g = G.DisjointSet(display='off') if default else G.DisjointSet(optimize=optimize, display='off')
    base = namer(names)
    total = sum(lists) + (later or 0)
    if sym:
        val = [h.int('x%d' % i) for i in range(total)]
        for i in range(total):
            for j in range(i):
                h.assume(val[i] != val[j])
        nm = lambda i: val[i]
    else:
        nm = base
    parent = {}
    n = 0

    def add(k):
        nonlocal n
        h.call('add', g.add, [nm(n + i) for i in range(k)])
        for i in range(k):
            parent[n + i] = n
        n += k
    for k in lists:
        add(k)
    elems = [nm(i) for i in range(total)]

    def union(i, j):
        r = h.call('union', g.union, nm(i), nm(j))
        a, b = root(parent, i), root(parent, j)
        h.check('union tells whether it merged two sets', bool(r) == (a != b))
        if a != b:
            parent[a] = b
    for i, j in script:
        union(i, j)
    for x, op in enumerate(ops):
        if op == 'A':
            add(later)
        elif op == 'F':
            i = h.choice('f%d' % x, n)
            r = h.call('find', g.find, nm(i))
            m = [k for k in range(n) if bool(elems[k] == r)]
            h.check('find returns an element of the same set', len(m) == 1 and root(parent, m[0]) == root(parent, i))
        elif op == 'U':
            union(h.choice('u%d' % x, n), h.choice('v%d' % x, n))
    w = verify(h, g, elems, parent, n, '')
    w2 = verify(h, g, elems, parent, n, ' (asked again)')
    h.check('asking does not change the answer', w == w2)
    for r in set(w.values()):
        h.check('sizes holds the number of elements of every set', g.sizes[elems[r]] == sum(1 for i in range(n) if w[i] == r))
    h.observe('representatives', [w[i] for i in range(n)])


def scenarios(tier):
    S = []
    T = tier == 'thorough'

    def add(**k):
        S.append((history, k))
    for o in (True, False):
        add(lists=[1] * 4, ops='UUU', optimize=o, names='big')
        add(lists=[1] * 6, ops='UU', optimize=o, names='str')
        add(lists=[2, 1, 1], ops='UFU', optimize=o, names='mixed')
        add(lists=[3, 2], ops='FUF', optimize=o, names='neg')
        add(lists=[1, 2], ops='UAU', later=3, optimize=o, names='digit')
        add(lists=[4, 1, 1], ops='UU', optimize=o, names='int')
        add(lists=[1, 1, 2], ops='UUU', optimize=o, sym=True)
        add(lists=[1] * 3, ops='UFUF', optimize=o, names='one')
        # deep chains: symbolic operations on top of a scripted history
        add(lists=[2] * 4, ops='FUF', optimize=o, script=[(0, 2), (4, 6), (0, 4)], names='big')
        add(lists=[2] * 4 + [1], ops='FU', optimize=o, script=[(1, 3), (5, 7), (7, 1)], names='str')
        add(lists=[1] * 9, ops='FFU', optimize=o, script=[(0, 1), (2, 3), (4, 5), (6, 7), (1, 2), (5, 6), (0, 4)], names='mixed')
        add(lists=[1] * 7, ops='FU', optimize=o, script=[(0, 1), (1, 2), (2, 3), (3, 4), (5, 6)], names='neg')
    # many elements: a long chain of sets and a big one next to small ones
    for k, o in enumerate((True, False)):
        add(lists=[1] * 14, ops='FU', optimize=o, script=[(i, i + 1) for i in range(11)], names=('ten', 'tens')[k])
        add(lists=[1] * 14, ops='FU', optimize=o, script=[(i + 1, i) for i in range(11)], names=('str', 'ten')[k])
        add(lists=[12, 1, 3], ops='UF', optimize=o, script=[(12, 3), (13, 12)], names=('mixed', 'str')[k])
        add(lists=[3, 9, 4], ops='UF', optimize=o, script=[(4, 1), (13, 0)], names=('tens', 'neg')[k])
    add(lists=[1] * 4, ops='UUUU' if not T else 'UUUUF', optimize=True)
    add(lists=[2, 2, 1], ops='UUU', optimize=True, default=True, names='str')
    if T:
        add(lists=[1] * 5, ops='UUUU', optimize=True)
        add(lists=[1] * 5, ops='UUUU', optimize=False)
    othernames(S)
    return S
