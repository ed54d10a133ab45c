from .search import *

BOUNDS = {
    'quick': 'all graphs of 3 nodes with loops and every source; all subsets of 9-10 candidate arcs on 5-7 nodes; '
             'directed and undirected, forward and reverse, DFS and BFS/UnweightedSPT, tree and every destination; '
             'all digraphs of 4 nodes from every source, all undirected graphs of 4 nodes with loops and of 5 nodes; '
             'a container (Stack, Queue, PriorityQueue) given by the caller; change-and-search-again histories on 5 nodes; component numbers (none, 0, 7) in two searches, all five algorithms; six families of node names',
    'thorough': 'as quick plus all digraphs of 4 nodes with loops, all digraphs of 5 nodes (arcs into the source left '
                'out) and all undirected graphs of 6 nodes'}
OUTSIDE = 'more nodes, graphs larger than the recursion-free bounds listed'


def scenarios(tier):
    S = []

    def add(fn, **k):
        S.append((fn, k))
    for algo in ('DFS', 'BFS', 'UnweightedSPT'):
        for d in (True, False):
            A = all_arcs(3, True) if d else all_edges(3, True)
            add(search_tree, directed=d, n=3, arcs=A, names='big', algo=algo, pick=True)
            add(search_tree, directed=d, n=3, arcs=A, names='str', algo=algo, dest=True)
            for n, C in ((5, D5 if d else U5), (6, D6), (7, D7 if d else U7)):
                if algo == 'UnweightedSPT' and n != 5:
                    continue
                add(search_tree, directed=d, n=n, arcs=C, algo=algo)
                add(search_tree, directed=d, n=n, arcs=C, fixed=2, algo=algo, dest=True, names='mixed')
                if d:
                    add(search_tree, directed=d, n=n, arcs=C, algo=algo, reverse=True, pick=n == 5, fixed=3)
                    add(search_tree, directed=d, n=n, arcs=C, algo=algo, reverse=True, dest=True, fixed=4)
            add(grown, directed=d, n=5, arcs=[(0, 1), (1, 2), (2, 3), (3, 4)], extra=[(0, 3), (4, 1), (2, 0)], algo=algo,
                names='neg')
            add(search_tree, directed=d, n=4, arcs=(D5 if d else U5)[:0] + [(0, 1), (1, 2), (2, 3), (0, 3), (1, 3)],
                algo=algo, twice=True, names='one')
    add(search_tree, directed=False, n=4, arcs=[(0, 1), (1, 2), (2, 3), (0, 3)], algo='DFS', reverse=True, names='str')
    for algo in ('DFS', 'BFS'):
        if True:
            add(search_tree, directed=True, n=4, arcs=all_arcs(4), algo=algo, pick=True)
            add(search_tree, directed=True, n=4, arcs=all_arcs(4), algo=algo, reverse=True, dest=True)
            add(search_tree, directed=True, n=3, arcs=all_arcs(3), algo=algo, pick=True, dest=True)
            add(search_tree, directed=True, n=3, arcs=all_arcs(3), algo=algo, pick=True, dest=True, names='empty')
            add(search_tree, directed=False, n=3, arcs=all_edges(3), algo=algo, pick=True, dest=True)
            add(search_tree, directed=False, n=4, arcs=all_edges(4, True), algo=algo, pick=True)
            add(search_tree, directed=False, n=5, arcs=all_edges(5), algo=algo, dest=True)
    for k, algo in enumerate(('DFS', 'BFS', 'UnweightedSPT', 'Dijkstra', 'Prim')):
        nk = ('int', 'str', 'mixed', 'big', 'neg')[k]
        for d in (True, False):
            add(marked, directed=d, n=3, arcs=all_arcs(3) if d else all_edges(3, True), algo=algo, pick=True, names=nk)
            add(marked, directed=d, n=5, arcs=D5 if d else U5, fixed=4, algo=algo, names=nk)
        add(marked, directed=True, n=4, arcs=[(1, 0), (2, 1), (0, 2), (3, 0), (2, 3)], algo=algo, reverse=True, names=nk)
    add(marked, directed=True, n=4, arcs=[(0, 1), (2, 1), (0, 2), (3, 0), (2, 3)], method=True)
    for q in ('Stack', 'Queue', 'PriorityQueue'):
        for algo in ('DFS', 'BFS', 'UnweightedSPT'):
            for d in (True, False):
                add(search_tree, directed=d, n=5, arcs=D5 if d else U5, fixed=1, algo=algo, q=q, names='neg')
                add(search_tree, directed=d, n=6, arcs=D6, fixed=4, algo=algo, q=q, dest=True, names='str')
            add(search_tree, directed=True, n=5, arcs=D5, fixed=3, algo=algo, q=q, reverse=True, pick=True)
    for algo, nk in (('DFS', 'ten'), ('BFS', 'tens'), ('UnweightedSPT', 'ten')):
        for d in (True, False):
            add(search_tree, directed=d, n=10, arcs=WIDEC, fixed=11, algo=algo, names=nk)
            add(search_tree, directed=d, n=10, arcs=HUBC, fixed=10, algo=algo, names=nk)
            add(search_tree, directed=d, n=10, arcs=HUB[::-1], fixed=10, algo=algo, names=nk, dest=True)
            add(search_tree, directed=d, n=10, arcs=WIDEC[::-1], fixed=11, algo=algo, names=nk, dest=True)
        add(search_tree, directed=True, n=10, arcs=[(j, i) for i, j in WIDEC], fixed=11, algo=algo, names=nk, reverse=True)
    if tier == 'thorough':
        for algo in ('DFS', 'BFS'):
            add(search_tree, directed=True, n=4, arcs=all_arcs(4, True), algo=algo)
            add(search_tree, directed=True, n=5, arcs=[a for a in all_arcs(5) if a[1] != 0], algo=algo)
            add(search_tree, directed=True, n=4, arcs=all_arcs(4), algo=algo, dest=True, pick=True, names='str')
            add(search_tree, directed=False, n=6, arcs=all_edges(6), algo=algo)
    for d in (True, False):
        for k, dest in enumerate((False, True)):
            again(S, 'C04', 'search_tree', 'edge', 'last', 'node', directed=d, n=5, arcs=[(0, 1), (1, 2), (2, 3), (0, 2), (3, 4)], names=('str', 'mixed')[k], fixed=2,
                  algo='DFS', dest=dest)
    for k, algo in enumerate(('DFS', 'BFS', 'UnweightedSPT')):
        for d in (True, False):
            S.append((search_tree, dict(directed=d, n=4, arcs=[(0, 1), (0, 2), (1, 3), (3, 2), (2, 1)], fixed=2, algo=algo, pick=True, first=True,
                                        names=('str', 'int', 'mixed')[k], shortest=False)))
            S.append((search_tree, dict(directed=d, n=4, arcs=[(0, 1), (0, 2), (1, 3), (3, 2), (2, 1)], fixed=3, algo=algo, pick=True, first=True,
                                        names=('mixed', 'str', 'neg')[k], dest=True, reverse=d, shortest=False)))
    othernames(S)
    return S
