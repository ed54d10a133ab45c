"""C14  preflow push: feasible, and maximum by a saturated cut."""
from .flow import *

BOUNDS = {
    'quick': 'arc capacities: all integers 0..9999, multiples of 1/4 in 0..9999 on 3 and 4 nodes (unbounded on bridge4; 10000 is the documented infinity); all networks on 3 nodes (every orientation, source '
             'and sink), on 4 nodes, 9 topologies of 4-6 nodes with 5-9 arcs; FIFO, SAP, HighestLabel and the default; repeated calls; arcs without capacity attribute in three networks',
    'thorough': 'as quick with more arcs per topology and all symbolic subsets'}
OUTSIDE = 'antiparallel arcs (documented precondition), networks without a finite maximum, other capacities, larger networks'


def scenarios(tier):
    S = []
    T = tier == 'thorough'

    def add(**k):
        k.setdefault('hi', 9999)
        S.append((max_flow_net, k))
    for algo in ('FIFO', 'SAP', 'HighestLabel'):
        add(algo=algo, n=3, arcs=all_edges(3), orient=True, pick=True, names='big')
        add(algo=algo, n=3, arcs=[(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)], fixed=0, names='mixed', hi=3)
        add(algo=algo, n=4, arcs=all_edges(4), orient=True, names='str', const=[] if T else [None] * 4 + [3, 5])
        for name, (n, a) in NETS.items():
            c = []
            if not T and len(a) > 7:
                c = [9, 6, 4, None, None, 3, None] if len(a) > 8 else [8, 5, None, None, 3]
            if not T and name == 'long6':
                c = [None, 7, None, 5, 3]
            add(algo=algo, n=n, arcs=a, names='mixed' if n == 5 else 'int', const=c)
        add(algo=algo, n=3, arcs=[(0, 1), (0, 2), (1, 2)], fixed=0, names='str', den=4)
        add(algo=algo, n=4, arcs=NETS['bridge4'][1], den=4, names='mixed')
        n, a = NETS['zig5']
        add(algo=algo, n=n, arcs=a[::-1], perm=[4, 2, 0, 3, 1], names='neg', const=[] if T else [4, None, None, None, 6])
        add(algo=algo, n=n, arcs=a, fixed=3, names='str', const=[] if T else [6, 9, None, None, 4])
        add(algo=algo, n=4, arcs=NETS['bridge4'][1], twice=True, names='big')
        # arcs without capacity; every path has a limited arc
        add(algo=algo, n=4, arcs=NETS['bridge4'][1], free=[2, 4], names='str', hi=900)
        add(algo=algo, n=4, arcs=NETS['bridge4r'][1], free=[0, 1, 2], names='mixed', hi=900)
        add(algo=algo, n=3, arcs=[(0, 1), (0, 2), (1, 2)], free=[0], names='neg', hi=900, twice=True)
    for algo, nk in (('FIFO', 'ten'), ('SAP', 'tens'), ('HighestLabel', 'ten')):
        add(algo=algo, n=10, arcs=HUB, t=9, names=nk, const=[4, 3, 2, 5, None, 2, 3, 1, 6, None, 3, 2, 1], hi=12)
        add(algo=algo, n=10, arcs=WIDE, t=4, names=nk, const=[9, 6, 4, None, 8, 3, 11, 5, 2, 7, 4, None, 2, 3], hi=12)
        add(algo=algo, n=10, arcs=WIDE[::-1], t=4, names=nk, const=[5, 4, 3, 6, None, 2, 11, 5, 4, 7, 6, 2, None, 5], fixed=13, hi=12)
    add(algo='push', n=4, arcs=NETS['bridge4'][1], hi=None)
    for algo in ('FIFO', 'SAP', 'HighestLabel'):
        again(S, 'C14', 'max_flow_net', algo=algo, n=5, arcs=[(0, 1), (1, 2), (2, 3), (0, 2), (3, 4), (1, 4)], names='str', const=[3, 2, None, 1, 4, 2], hi=9)
    othernames(S)
    return S
