"""C17  network simplex: a feasible flow without negative residual cycle."""
from .mincost import *

BOUNDS = {
    'quick': 'arc costs: all integers, multiples of 1/4 in two scenarios (fixed on some arcs in some scenarios); symbolic capacities and demands up to the '
             'listed sizes on connected networks of 2-6 nodes and up to 9 arcs, fixed ones of 60000-95000 (above INF), ten nodes with fixed data but for one capacity or demand and 1-4 costs; both pivot rules, any root, default '
             'arguments, repeated calls, five families of names; no cycling within the step budget',
    'thorough': 'as quick with fewer fixed values'}
OUTSIDE = 'antiparallel arcs and loops, disconnected networks, nodes s and t (documented preconditions), other data, larger networks'


def scenarios(tier):
    S = []
    T = tier == 'thorough'

    def add(algo='simplex', **k):
        S.append((min_cost, dict(algo=algo, **k)))
    add(n=2, arcs=[(0, 1)], orient=True, names='big', algo='default')
    for pv in ('dantzig', 'first_eligible'):
        add(n=3, arcs=all_edges(3), orient=True, names='str', cap_hi=4, pivot=pv, root='any')
        add(n=3, arcs=[(0, 1), (1, 2), (2, 0)], names='neg', twice=True, cap_hi=3, pivot=pv)
        add(n=3, arcs=[(0, 1), (0, 2), (2, 1)], names='mixed', feas=False, pivot=pv, cap_hi=5)
        add(n=4, arcs=all_edges(4), orient=True, dcon=[3, 0, 0, -3], ucon=[2, 2, 1, 2, 2, 2], pivot=pv,
            ccon=[] if T else [None, 1, None, 3, None, 2])
        add(n=3, arcs=[(0, 1), (0, 2), (2, 1)], names='str', den=4, cap_hi=3, pivot=pv)
        add(n=4, arcs=NETS['bridge4'][1], dcon=[2.5, 0.25, 0], ucon=[1.5, None, 0.75, None, 2], ccon=[None, 0.5, None, -0.25, None], cap_hi=4, den=4, pivot=pv)
        for k, (name, (n, a)) in enumerate(sorted(NETS.items())):
            nk = ('int', 'str', 'mixed', 'big', 'neg')[k % 5]
            U = [3, 3, 1, 2, 4, 2, 2, 3, 1][:len(a)]
            D = [3] + [0] * (n - 2)
            D[1] = 1
            add(n=n, arcs=a, dcon=D, ucon=U, names=nk, pivot=pv, root=k % n)
            add(n=n, arcs=a, dcon=D, ucon=[None if x % 2 else u for x, u in enumerate(U)], names=nk, perm=list(range(n))[::-1],
                ccon=[1, -2, None, 0, 3, -1, 2, 1, 1], pivot=pv)
            add(n=n, arcs=a, dcon=[None] + [0] * (n - 2), ucon=U, ccon=[2, 0, -3, None, 1, -2, 4, None, 1], pivot=pv, root=n - 1)
        n, a = NETS['bridge4']
        add(n=n, arcs=a, dcon=[None, 0, 0], ucon=[3, None, 2, None, 3], ccon=[] if T else [None, 2, None, 1, None], pivot=pv)
        add(n=n, arcs=a, dcon=[3, None, None], ucon=[2, None, 1, None, 3], ccon=[1, 4, None, None, 2], perm=[2, 0, 3, 1], names='mixed', pivot=pv)
        add(n=n, arcs=a, dcon=[4, None, 0], ucon=[None, None, 2, None, None], ccon=[None, -2, -5, None, 0], cap_hi=None if T else 6,
            names='mixed', pivot=pv, root='any')
        # the first feasible flow uses a cycle of arcs partly
        add(n=4, arcs=[(1, 2), (1, 3), (0, 1), (0, 3)], ucon=[4, None, 3, None], dcon=[2, 1, -1], ccon=[None, 1, None, 2], cap_hi=4, pivot=pv)
        add(n=4, arcs=[(1, 3), (2, 0), (1, 2), (2, 3), (3, 0), (1, 0)], ucon=[4, 3, 3, 3, None, None], dcon=[-3, 4, 2],
            ccon=[1, None, 2, 1, None, 3], cap_hi=4, pivot=pv, names='mixed')
        add(n=5, arcs=[(0, 1), (2, 3), (2, 4), (1, 2), (1, 4)], ucon=[5, 4, None, 3, 2], dcon=[0, None, 1, -1], ccon=[1, None, 1, -1, None],
            dem_lim=4, cap_hi=4, pivot=pv, root=0, names='neg')
        add(n=6, arcs=[(2, 3), (0, 1), (2, 4), (1, 2), (3, 5), (1, 4), (4, 5)], ucon=[None, 5, 3, 3, 2, 2, 3], dcon=[0, 2, 1, -1, None],
            ccon=[1, None, 1, -1, 0, 2, None], dem_lim=4, cap_hi=4, pivot=pv, names='str')
        add(n=5, arcs=[(0, 4), (1, 3), (0, 1), (1, 2), (3, 4), (2, 4), (2, 3)], ucon=[2, 3, 3, None, 3, 4, 2], dcon=[3, 2, None, -3],
            ccon=[1, None, 0, 2, -1, None, 1], dem_lim=4, cap_hi=4, pivot=pv)
    for pv in ('dantzig', 'first_eligible'):
        # numbers beyond the constant that stands for a missing capacity
        for name in ('bridge4',) + (tuple(sorted(NETS)) if T else ()):
            n, a = NETS[name]
            add(n=n, arcs=a, dcon=[60000] + [0] * (n - 2), ucon=[90000, 70000, 80000, 95000, 90000, 70000, 70000, 80000, 60000][:len(a)], names='big', pivot=pv)
        add(n=3, arcs=all_edges(3), orient=True, names='str', dcon=[60000, 0], ucon=[90000, 70000, 80000], pivot=pv)
        add(n=10, arcs=WIDE, dcon=[5, 0, 1, 0, -6, -1, 0, 1, 0], names='ten', ucon=[9, 6, 4, 8, 8, 3, 11, 5, 2, 7, 4, 2, 2, 3], ccon=[None, 1, -2, 3, None, 2, 0, -1, 4, 2, None, 5, 1, -3], pivot=pv)
        add(n=10, arcs=WIDE[::-1], dcon=[4, 0, 2, 0, None, 0, 0, -1, 0], names='tens', ucon=[4, 3, 5, 6, 8, 3, 11, 5, 7, 6, 4, 8, 9, 7], ccon=[1, -2, 3, 1, None, 2, 0, -1, 4, 2, 1, 5, None, -3],
            dem_lim=8, pivot=pv, root=4)
    again(S, 'C17', 'min_cost', algo='simplex', pivot='dantzig', n=4, arcs=[(0, 1), (1, 2), (2, 3), (0, 2)], names='str', dcon=[3, 0, 0], ucon=[3, 2, 4, None], ccon=[1, -2, None, 3], cap_hi=5)
    othernames(S)
    return S
