"""C16  cycle canceling: a feasible flow without negative residual cycle."""
from .mincost import *

BOUNDS = {
    'quick': 'arc costs: all integers, multiples of 1/4 in two scenarios; symbolic capacities and demands up to the listed sizes on networks of 2-5 nodes '
             'and up to 7 arcs, partly fixed per scenario',
    'thorough': 'as quick with fewer fixed values'}
OUTSIDE = 'antiparallel arcs, nodes s and t, other data, larger networks'


def scenarios(tier):
    S = []
    T = tier == 'thorough'

    def add(**k):
        S.append((min_cost, dict(algo='cycle_canceling', **k)))
    add(n=2, arcs=[(0, 1)], orient=True, names='big')
    add(n=3, arcs=all_edges(3), orient=True, names='str', cap_hi=4)
    add(n=3, arcs=[(0, 1), (1, 2), (2, 0)], names='neg', twice=True, cap_hi=3)
    add(n=3, arcs=[(0, 1), (0, 2), (2, 1)], names='mixed', feas=False)
    add(n=4, arcs=all_edges(4), orient=True, dcon=[3, 0, 0, -3], ucon=[2, 2, 1, 2, 2, 2], ccon=[] if T else [None, 1, None, 3, None, 2])
    add(n=3, arcs=[(0, 1), (0, 2), (2, 1)], names='str', den=4, cap_hi=3)
    add(n=4, arcs=NETS['bridge4'][1], dcon=[2.5, 0.25, 0], ucon=[1.5, None, 0.75, None, 2], ccon=[None, 0.5, None, -0.25, None], cap_hi=4, den=4)
    for k, (name, (n, a)) in enumerate(sorted(NETS.items())):
        nk = ('int', 'str', 'mixed', 'big', 'neg')[k % 5]
        U = [3, 3, 1, 2, 4, 2, 2, 3, 1][:len(a)]
        D = [3] + [0] * (n - 2)
        D[1] = 1
        add(n=n, arcs=a, dcon=D, ucon=U, names=nk)
        add(n=n, arcs=a, dcon=D, ucon=[None if x % 2 else u for x, u in enumerate(U)], names=nk, perm=list(range(n))[::-1],
            ccon=[1, -2, None, 0, 3, -1, 2, 1, 1])
        add(n=n, arcs=a, dcon=[None] + [0] * (n - 2), ucon=U, ccon=[2, 0, -3, None, 1, -2, 4, None, 1])
    n, a = NETS['bridge4']
    add(n=n, arcs=a, dcon=[None, 0, 0], ucon=[3, None, 2, None, 3], ccon=[] if T else [None, 2, None, 1, None])
    add(n=n, arcs=a, dcon=[3, None, None], ucon=[2, None, 1, None, 3], ccon=[1, 4, None, None, 2], perm=[2, 0, 3, 1], names='mixed')
    add(n=n, arcs=a, dcon=[4, None, 0], ucon=[None, None, 2, None, None], ccon=[None, -2, -5, None, 0], cap_hi=None if T else 6, names='mixed')
    add(n=10, arcs=WIDE, dcon=[5, 0, 1, 0, -6, -1, 0, 1, 0], names='ten', ucon=[9, 6, 4, 8, 8, 3, 11, 5, 2, 7, 4, 2, 2, 3], ccon=[None, 1, -2, 3, None, 2, 0, -1, 4, 2, None, 5, 1, -3])
    add(n=10, arcs=WIDE[::-1], dcon=[4, 0, 2, 0, None, 0, 0, -1, 0], names='tens', ucon=[4, 3, 5, 6, 8, 3, 11, 5, 7, 6, 4, 8, 9, 7], ccon=[1, -2, 3, 1, None, 2, 0, -1, 4, 2, 1, 5, None, -3],
        dem_lim=8)
    again(S, 'C16', 'min_cost', algo='cycle_canceling', n=4, arcs=[(0, 1), (1, 2), (2, 3), (0, 2)], names='str', dcon=[3, 0, 0], ucon=[3, 2, 4, None], ccon=[1, -2, None, 3], cap_hi=5)
    othernames(S)
    return S
