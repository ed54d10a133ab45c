from .flow import *


def min_cost(h, n, arcs, algo, orient=False, fixed=None, names='int', perm=None, ucon=(), dcon=(), ccon=(),
             cap_hi=9999, dem_lim=9999, cost_lo=None, cost_hi=None, pivot=None, root=None, feas=True, twice=False,
             den=1):
    if orient:
        arcs = one_per_pair(h, n, [tuple(a) for a in arcs])
    else:
        arcs = subset(h, [tuple(a) for a in arcs], len(arcs) if fixed is None else fixed)
    if algo != 'cycle_canceling':
        h.assume(is_connected(n, arcs))
    g, nm, cap, cost, dem = network(h, n, arcs, names, perm, cap_hi=cap_hi, dem_lim=dem_lim, ucon=ucon, dcon=dcon,
                                    ccon=ccon, cost_lo=cost_lo, cost_hi=cost_hi, den=den)
    F = feasible(n, arcs, cap, dem)
    if feas:
        h.assume(F)
    kw = {} if algo == 'default' else dict(algo=algo)
    if pivot:
        kw['pivot'] = pivot
    if root == 'any':
        kw['root'] = nm(h.choice('root', n))
    elif root is not None:
        kw['root'] = nm(root)
    for rep in range(2 if twice else 1):
        if rep:
            k = 0
            cost[k] = h.num('newcost', den=den)
            g.set_edge_attr(nm(arcs[k][0]), nm(arcs[k][1]), 'cost', cost[k])
        h.call('min_cost_flow', g.min_cost_flow, **kw)
        inf = 'infeasible' in h.out
        tag = ' (call 2)' if rep else ''
        if inf:
            h.check('infeasibility is reported only if no flow meets the demands' + tag, NOT(F))
            continue
        flow = [g.get_edge_attr(nm(i), nm(j), 'flow') for i, j in arcs]
        h.observe('flow%d' % rep, flow)
        check_demands(h, n, arcs, cap, dem, flow, tag)
        check_optimal(h, n, arcs, cap, cost, flow, tag)
        h.check('costs, capacities and demands are untouched' + tag,
                AND([EQ(g.get_edge_attr(nm(i), nm(j), 'capacity'), cap[k]) for k, (i, j) in enumerate(arcs)]
                    + [EQ(g.get_edge_attr(nm(i), nm(j), 'cost'), cost[k]) for k, (i, j) in enumerate(arcs)]
                    + [EQ(g.get_node_attr(nm(i), 'demand'), dem[i]) for i in range(n)]))
