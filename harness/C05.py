from .search import *

BOUNDS = {
    'quick': 'all graphs of 3 nodes with loops; all subsets of 9-10 candidate arcs on 5-7 nodes; directed (forward and '
             'reverse) and undirected; search BFS and UnweightedSPT (with the default container, a Queue or a PriorityQueue), and bfs(); all digraphs of 4 nodes and all graphs of 5 nodes; change-and-search-again histories',
    'thorough': 'as quick plus all digraphs of 5 nodes (arcs into the source left out), all graphs of 6 nodes'}
OUTSIDE = 'more nodes; a Stack given by the caller'


def scenarios(tier):
    S = []

    def add(fn, **k):
        S.append((fn, k))
    for algo in ('BFS', 'UnweightedSPT'):
        for d in (True, False):
            A = all_arcs(3, True) if d else all_edges(3, True)
            add(search_tree, directed=d, n=3, arcs=A, names='big', algo=algo, shortest=True, pick=True)
            for n, C in ((5, D5 if d else U5), (6, D6), (7, D7 if d else U7)):
                add(search_tree, directed=d, n=n, arcs=C, algo=algo, shortest=True)
                add(search_tree, directed=d, n=n, arcs=C, fixed=2, algo=algo, dest=True, names='str', shortest=True)
                if d:
                    add(search_tree, directed=d, n=n, arcs=C, algo=algo, reverse=True, fixed=2, shortest=True)
            add(grown, directed=d, n=5, arcs=[(0, 1), (1, 2), (2, 3), (3, 4)], extra=[(0, 3), (4, 1), (2, 0)], algo=algo,
                names='mixed', shortest=True)
    for d in (True, False):
        add(search_tree, directed=d, n=5, arcs=D5 if d else U5, algo='BFS', method=True, twice=True)
        add(search_tree, directed=d, n=7, arcs=D7 if d else U7, fixed=2, algo='BFS', method=True, names='str')
    if True:
        for algo in ('BFS', 'UnweightedSPT'):
            for q in ('Queue', 'PriorityQueue'):
                for d in (True, False):
                    add(search_tree, directed=d, n=5, arcs=D5 if d else U5, algo=algo, q=q, names='big', shortest=True)
                    add(search_tree, directed=d, n=7, arcs=D7 if d else U7, fixed=3, algo=algo, q=q, dest=True, names='str',
                        shortest=True)
                add(search_tree, directed=True, n=6, arcs=D6, fixed=2, algo=algo, q=q, reverse=True, shortest=True)
            add(search_tree, directed=True, n=4, arcs=all_arcs(4), algo=algo, pick=True, shortest=True)
            add(search_tree, directed=True, n=4, arcs=all_arcs(4), algo=algo, reverse=True, dest=True, shortest=True)
            add(search_tree, directed=False, n=5, arcs=all_edges(5), algo=algo, dest=True, shortest=True)
    for algo, nk in (('BFS', 'tens'), ('UnweightedSPT', 'ten')):
        for d in (True, False):
            add(search_tree, directed=d, n=10, arcs=WIDEC, fixed=10, algo=algo, names=nk, shortest=True)
            add(search_tree, directed=d, n=10, arcs=HUBC, fixed=10, algo=algo, names=nk, shortest=True)
            add(search_tree, directed=d, n=10, arcs=HUB[::-1], fixed=10, algo=algo, names=nk, dest=True, shortest=True)
            add(search_tree, directed=d, n=10, arcs=WIDEC[::-1], fixed=11, algo=algo, names=nk, dest=True, shortest=True)
        add(search_tree, directed=True, n=10, arcs=[(j, i) for i, j in WIDEC], fixed=11, algo=algo, names=nk, reverse=True, shortest=True)
    add(search_tree, directed=True, n=10, arcs=WIDEC, fixed=11, algo='BFS', method=True, names='ten')
    if tier == 'thorough':
        add(search_tree, directed=True, n=5, arcs=[a for a in all_arcs(5) if a[1] != 0], algo='BFS', shortest=True)
        add(search_tree, directed=False, n=6, arcs=all_edges(6), algo='BFS', shortest=True, dest=True)
        add(search_tree, directed=False, n=6, arcs=all_edges(6), algo='BFS', method=True)
    for d in (True, False):
        for k, algo in enumerate(('BFS', 'UnweightedSPT')):
            again(S, 'C05', 'search_tree', 'edge', 'last', 'node', directed=d, n=5, arcs=[(0, 1), (1, 2), (2, 3), (0, 2), (3, 4)], names=('str', 'mixed')[k], fixed=2,
                  algo=algo, dest=k == 1, shortest=True)
        again(S, 'C05', 'search_tree', 'edge', 'last', 'node', directed=d, n=5, arcs=[(0, 1), (1, 2), (2, 3), (0, 2), (3, 4)], names='int', fixed=2, algo='BFS', method=True)
    for k, algo in enumerate(('BFS', 'UnweightedSPT')):
        for d in (True, False):
            S.append((search_tree, dict(directed=d, n=4, arcs=[(0, 1), (0, 2), (1, 3), (3, 2), (2, 1)], fixed=2, algo=algo, pick=True, first=True,
                                        names=('str', 'int', 'mixed')[k], shortest=True)))
            S.append((search_tree, dict(directed=d, n=4, arcs=[(0, 1), (0, 2), (1, 3), (3, 2), (2, 1)], fixed=3, algo=algo, pick=True, first=True,
                                        names=('mixed', 'str', 'neg')[k], dest=True, reverse=d, shortest=True)))
    othernames(S)
    return S

