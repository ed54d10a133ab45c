"""C15  find_feasible_flow: True exactly if the demands can be met."""
from .flow import *

BOUNDS = {
    'quick': 'capacities all integers 0..9999, demands all integers in -9999..9999 (balanced or not; all integers on the smallest networks, multiples of 1/4 on two networks of 3-4 nodes); all orientations of networks on '
             '3 nodes, all symbolic subsets of 4-5 arcs on 4 nodes, topologies of 4-6 nodes with up to 8 arcs; repeated calls; four '
             'families of names',
    'thorough': 'as quick with fewer fixed capacities and demands'}
OUTSIDE = ('antiparallel arcs, nodes named s or t (documented preconditions), missing capacities, other data, '
           'larger networks')


def feasible_flow(h, n, arcs, orient=False, fixed=None, names='int', perm=None, zero_sum=False, ucon=(), dcon=(),
                  twice=False, cap_hi=9999, dem_lim=9999, den=1):
    if orient:
        arcs = one_per_pair(h, n, [tuple(a) for a in arcs])
    else:
        arcs = subset(h, [tuple(a) for a in arcs], len(arcs) if fixed is None else fixed)
    g, nm, cap, cost, dem = network(h, n, arcs, names, perm, cap_hi=cap_hi, dem_lim=dem_lim, zero_sum=zero_sum, ucon=ucon, dcon=dcon, costs=False, den=den)
    nodes, edges = g.get_node_list(), g.get_edge_list()
    for rep in range(2 if twice else 1):
        r = h.call('find_feasible_flow', g.find_feasible_flow)
        h.check('the result is True or False', r is True or r is False)
        h.check('the nodes are as before', g.get_node_list() == nodes)
        h.check('the arcs are as before', g.get_edge_list() == edges)
        if r:
            flow = [g.get_edge_attr(nm(i), nm(j), 'flow') for i, j in arcs]
            h.observe('flow', flow)
            check_demands(h, n, arcs, cap, dem, flow)
        else:
            h.check('False is returned only if no flow meets the demands', NOT(feasible(n, arcs, cap, dem)))
        h.check('capacities and demands are untouched',
                AND([EQ(g.get_edge_attr(nm(i), nm(j), 'capacity'), cap[k]) for k, (i, j) in enumerate(arcs)]
                    + [EQ(g.get_node_attr(nm(i), 'demand'), dem[i]) for i in range(n)]))


def scenarios(tier):
    S = []
    T = tier == 'thorough'

    def add(**k):
        S.append((feasible_flow, k))
    for nk in ('int', 'str'):
        add(n=3, arcs=all_edges(3), orient=True, names=nk, perm=[2, 0, 1])
    add(n=2, arcs=[(0, 1)], orient=True, names='big', twice=True, cap_hi=None, dem_lim=None)
    add(n=2, arcs=[(0, 0), (0, 1), (1, 1)], fixed=1, names='mixed', dem_lim=None)
    add(n=3, arcs=all_edges(3), fixed=2, names='mixed', twice=True)
    add(n=4, arcs=all_edges(4), orient=True, dcon=[3, None, 0] if not T else [3, None, None, -3], zero_sum=not T, ucon=[] if T else [4, 3, None, 2, None, 1])
    add(n=4, arcs=NETS['bridge4'][1], fixed=3, zero_sum=True, names='neg', ucon=[] if T else [3], dcon=[] if T else [None, None, 1])
    add(n=4, arcs=NETS['bridge4r'][1], ucon=[None, 2], perm=[3, 1, 2, 0], dcon=[] if T else [None, None, 0, None])
    add(n=3, arcs=all_edges(3), fixed=2, names='str', den=4)
    add(n=4, arcs=NETS['bridge4'][1], zero_sum=True, ucon=[3, None, None, 1.5], dcon=[None, None, 0.25], den=4)
    n, a = NETS['zig5']
    add(n=n, arcs=a, dcon=[None, None, 0, 0], zero_sum=True, names='str', ucon=[] if T else [4, None, None, 3])
    add(n=n, arcs=a, dcon=[4, 0, None, None, None], ucon=[] if T else [3, 3, 2, None, None, None, None])
    n, a = NETS['two6']
    add(n=n, arcs=a, dcon=[None, 0, 0, 0, 0], zero_sum=True, ucon=[] if T else [5, 3])
    add(n=n, arcs=a, dcon=[5, 2, 0, 0, -3], zero_sum=True, names='big', ucon=[] if T else [None, None, 4])
    n, a = NETS['back5']
    add(n=n, arcs=a, dcon=[None, 0, None, 0], zero_sum=True, names='mixed', ucon=[] if T else [None, 3, None, 2])
    add(n=10, arcs=HUB, dcon=[9, -1, None, 0, -1, 0, -1, 0, -1], zero_sum=True, names='ten', ucon=[4, 3, 2, 5, None, 2, 3, 1, 6, None, 3, 2, 1])
    add(n=10, arcs=WIDE, dcon=[None, 0, 3, 0, None, -1, 0, 1, 0], zero_sum=True, names='ten', ucon=[9, 6, 4, None, 8, 3, 11, 5, None, 7, 4, 2, 2, 3])
    add(n=10, arcs=WIDE[::-1], dcon=[5, None, 0, 0, -6, 1, 0, 2, -2], zero_sum=True, names='tens', fixed=12, ucon=[5, 4, 3, 6, None, 2, 11, 5, 4, 7, 6, 2, None, 5])
    again(S, 'C15', 'feasible_flow', n=4, arcs=[(0, 1), (1, 2), (2, 3), (0, 2)], names='str', dcon=[3, None, 0], zero_sum=True, ucon=[3, 2, 4, None], cap_hi=5)
    othernames(S)
    return S
