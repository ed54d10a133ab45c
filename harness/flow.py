"""Networks with symbolic capacities: feasibility and optimality of a flow."""
import itertools
from .common import *


def cuts(n, s, t):
    rest = [v for v in range(n) if v not in (s, t)]
    for r in range(len(rest) + 1):
        for c in itertools.combinations(rest, r):
            yield frozenset(c) | {s}


def check_max_flow(h, n, arcs, cap, flow, s, t, tag=''):
    h.check('flow is non-negative' + tag, AND([f >= 0 for f in flow]))
    h.check('flow is at most the capacity' + tag, AND([f <= c for f, c in zip(flow, cap)]))

    def net(v):
        return (SUM(flow[k] for k, a in enumerate(arcs) if a[0] == v and a[1] != v)
                - SUM(flow[k] for k, a in enumerate(arcs) if a[1] == v and a[0] != v))
    h.check('flow is conserved at every inner node' + tag,
            AND([EQ(net(v), 0) for v in range(n) if v not in (s, t)]))
    value = net(s)
    h.check('the value of the flow equals the capacity of a cut' + tag,
            OR([EQ(value, SUM(cap[k] for k, a in enumerate(arcs) if a[0] in S and a[1] not in S))
                for S in cuts(n, s, t)]))


def one_per_pair(h, n, pairs):
    """for each pair: no arc, i->j or j->i (no antiparallel arcs)"""
    out = []
    for k, (i, j) in enumerate(pairs):
        o = h.choice('pair%d' % k, 3)
        if o:
            out.append((i, j) if o == 1 else (j, i))
    return out


NETS = {
    'bridge4': (4, [(0, 1), (0, 2), (1, 2), (1, 3), (2, 3)]),
    'bridge4r': (4, [(0, 2), (0, 1), (2, 1), (2, 3), (1, 3)]),
    'zig5': (5, [(0, 1), (0, 2), (1, 2), (1, 3), (2, 4), (3, 4), (2, 3)]),
    'back5': (5, [(0, 1), (1, 2), (2, 3), (3, 1), (2, 4), (0, 3), (3, 4)]),
    'two6': (6, [(0, 1), (0, 2), (1, 3), (2, 3), (1, 4), (2, 4), (3, 5), (4, 5)]),
    'cross6': (6, [(0, 1), (0, 2), (1, 4), (1, 3), (2, 3), (3, 5), (4, 5), (2, 4), (3, 4)]),
    'dead5': (5, [(0, 1), (1, 2), (0, 3), (3, 2), (2, 4), (1, 3)]),
    'intosrc': (4, [(1, 0), (0, 2), (2, 1), (2, 3), (3, 1), (0, 3)]),
    'long6': (6, [(0, 1), (1, 2), (2, 3), (3, 5), (0, 4), (4, 2), (1, 4), (4, 5)]),
}


def max_flow_net(h, algo, n, arcs, s=0, t=None, fixed=None, orient=False, names='int', const=(), hi=None,
                 twice=False, pick=False, perm=None, den=1, free=()):
    base = namer(names)
    perm = perm or list(range(n))
    nm = lambda i: base(perm[i])
    t = n - 1 if t is None else t
    if orient:
        arcs = one_per_pair(h, n, [tuple(a) for a in arcs])
    else:
        arcs = subset(h, [tuple(a) for a in arcs], len(arcs) if fixed is None else fixed)
    # arcs in free have no capacity attribute: no limit
    cap = [10 ** 6 if k in free else
           const[k] if k < len(const) and const[k] is not None else h.num('u%d' % k, 0, hi, den) for k in range(len(arcs))]
    g = new_graph(True)
    for i in sorted(range(n), key=lambda i: perm[i]):
        g.add_node(nm(i))
    for k, (i, j) in enumerate(arcs):
        if k in free:
            g.add_edge(nm(i), nm(j))
        else:
            g.add_edge(nm(i), nm(j), capacity=cap[k])
    if pick:
        s = h.choice('source', n)
        t = h.choice('sink', n)
        h.assume(s != t)
    runs = [(s, t)] + ([(t, s), (s, t)] if twice else [])
    for rep, (a, b) in enumerate(runs):
        if algo in ('DFS', 'BFS'):
            h.call('max_flow', g.max_flow, nm(a), nm(b), algo=algo)
        elif algo == 'default':
            h.call('max_flow', g.max_flow, nm(a), nm(b))
        elif algo == 'push':
            h.call('max_flow_preflowpush', g.max_flow_preflowpush, nm(a), nm(b))
        else:
            h.call('max_flow_preflowpush', g.max_flow_preflowpush, nm(a), nm(b), algo=algo)
        flow = [g.get_edge_attr(nm(i), nm(j), 'flow') for i, j in arcs]
        h.observe('flow%d' % rep, flow)
        check_max_flow(h, n, arcs, cap, flow, a, b, ' (call %d)' % (rep + 1) if rep else '')
        h.check('the capacities are untouched', AND([EQ(g.get_edge_attr(nm(i), nm(j), 'capacity'), cap[k])
                                                     for k, (i, j) in enumerate(arcs) if k not in free]))


# ------------------------------------------------------- flows with demands
def feasible(n, arcs, cap, dem):
    """Gale/Hoffman: a flow that meets the demands exists (node k supplies dem[k])"""
    conds = [EQ(SUM(dem), 0)]
    for r in range(1, n):
        for S in itertools.combinations(range(n), r):
            conds.append(SUM(dem[v] for v in S) <=
                         SUM(cap[k] for k, a in enumerate(arcs) if a[0] in S and a[1] not in S))
    return AND(conds)


def check_demands(h, n, arcs, cap, dem, flow, tag=''):
    h.check('flow is non-negative' + tag, AND([f >= 0 for f in flow]))
    h.check('flow is at most the capacity' + tag, AND([f <= c for f, c in zip(flow, cap)]))
    for v in range(n):
        h.check('every demand is met' + tag,
                EQ(SUM(flow[k] for k, a in enumerate(arcs) if a[0] == v and a[1] != v)
                   - SUM(flow[k] for k, a in enumerate(arcs) if a[1] == v and a[0] != v), dem[v]))


def residual_cycles(n, arcs):
    """simple cycles of the graph in which every arc may be used both ways:
    lists of (arc, +1/-1); the two directions of one arc alone are no cycle"""
    both = [(i, j, k, 1) for k, (i, j) in enumerate(arcs)] + \
           [(j, i, k, -1) for k, (i, j) in enumerate(arcs) if i != j]
    out = []

    def go(start, u, seen, path):
        for i, j, k, d in both:
            if i != u:
                continue
            if j == start:
                if not any(x[0] == k for x in path):
                    out.append(path + [(k, d)])
            elif j > start and j not in seen:
                go(start, j, seen | {j}, path + [(k, d)])
    for s in range(n):
        go(s, s, {s}, [])
    return out


def check_optimal(h, n, arcs, cap, cost, flow, tag=''):
    for cyc in residual_cycles(n, arcs):
        usable = AND([(flow[k] < cap[k]) if d > 0 else (flow[k] > 0) for k, d in cyc])
        total = SUM(cost[k] if d > 0 else -cost[k] for k, d in cyc)
        h.check('no residual cycle has negative cost (no cheaper flow)' + tag, IMP(usable, total >= 0))


def is_connected(n, arcs):
    return len(set(components(n, arcs))) == 1


def network(h, n, arcs, names='int', perm=None, cap_hi=9999, dem_lim=None, zero_sum=True, ucon=(), ccon=(), dcon=(),
            cost_lo=None, cost_hi=None, costs=True, den=1):
    """a network; None entries of the const lists are symbolic"""
    base = namer(names)
    perm = perm or list(range(n))
    nm = lambda i: base(perm[i])

    def pick(con, k, f):
        return con[k] if k < len(con) and con[k] is not None else f()
    cap = [pick(ucon, k, lambda: h.num('u%d' % k, 0, cap_hi, den)) for k in range(len(arcs))]
    cost = [pick(ccon, k, lambda: h.num('c%d' % k, cost_lo, cost_hi, den)) for k in range(len(arcs))] if costs else None
    lo, hi = (None, None) if dem_lim is None else (-dem_lim, dem_lim)
    m = n - 1 if zero_sum else n
    dem = [pick(dcon, v, lambda: h.num('b%d' % v, lo, hi, den)) for v in range(m)]
    if zero_sum:
        dem.append(-SUM(dem))
    g = new_graph(True)
    for i in sorted(range(n), key=lambda i: perm[i]):
        g.add_node(nm(i), demand=dem[i])
    for k, (i, j) in enumerate(arcs):
        if costs:
            g.add_edge(nm(i), nm(j), capacity=cap[k], cost=cost[k])
        else:
            g.add_edge(nm(i), nm(j), capacity=cap[k])
    return g, nm, cap, cost, dem
