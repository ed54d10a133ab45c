"""C29  residual graph, cycle capacity, augmentation."""
from .flow import *

BOUNDS = {
    'quick': 'unbounded symbolic capacities, costs and feasible flows on every network without antiparallel arcs with 3 '
             'nodes and on the listed ones with up to 6 nodes and 9 arcs, and on a ring of ten nodes with two chords (there some arcs are fixed to be empty, saturated or in between); every simple residual cycle (symbolically '
             'chosen, every starting node) and every symbolic amount up to its capacity; two augmentations in a row',
    'thorough': 'as quick with fewer arcs fixed to a state and three augmentations'}
OUTSIDE = 'antiparallel arcs and self-loops (the residual graph cannot hold two parallel arcs), cycles that repeat a node'


def residual(h, n, arcs, orient=False, fixed=None, names='int', augment=0, amount='sym', state='', den=1, data=None):
    if orient:
        arcs = one_per_pair(h, n, [tuple(a) for a in arcs])
    else:
        arcs = subset(h, [tuple(a) for a in arcs], len(arcs) if fixed is None else fixed)
    nm = namer(names)
    m = len(arcs)
    cap = [data[k][0] if data and data[k] else h.num('u%d' % k, 0, den=den) for k in range(m)]
    cost = [h.num('c%d' % k, den=den) for k in range(m)]
    flow = []
    for k in range(m):
        f = data[k][1] if data and data[k] else h.num('f%d' % k, 0, den=den)
        h.assume(AND(0 <= f, f <= cap[k]))
        st = state[k] if k < len(state) else '*'
        if st != '*':       # m: between the bounds, z: empty, s: saturated
            h.assume(AND(f > 0, f < cap[k]) if st == 'm' else EQ(f, 0) if st == 'z' else AND(EQ(f, cap[k]), f > 0))
        flow.append(f)
    g = new_graph(True)
    for i in range(n):
        g.add_node(nm(i))
    for k, (i, j) in enumerate(arcs):
        g.add_edge(nm(i), nm(j), capacity=cap[k], cost=cost[k], flow=flow[k])
    for r in range(augment + 1):
        tag = ' (after %d augmentations)' % r if r else ''
        res = h.call('create_residual_graph', g.create_residual_graph)
        inv = {nm(i): i for i in range(n)}
        el = h.call('get_edge_list', res.get_edge_list)
        h.check('residual arcs join nodes of the graph' + tag, all(e[0] in inv and e[1] in inv for e in el))
        got = {(inv[e[0]], inv[e[1]]): e for e in el if e[0] in inv and e[1] in inv}
        h.check('no residual arc twice' + tag, len(got) == len(el))
        seen = []
        for k, (i, j) in enumerate(arcs):
            for (a, b), amt, c, what in (((i, j), cap[k] - flow[k], cost[k], 'forward'),
                                         ((j, i), flow[k], -cost[k], 'backward')):
                if (a, b) in got:
                    seen.append((a, b))
                    h.check('a %s residual arc exists only where flow can be %s' % (
                        what, 'added' if what == 'forward' else 'withdrawn') + tag, amt > 0)
                    h.check('%s residual capacity' % what + tag, EQ(res.get_edge_attr(nm(a), nm(b), 'capacity'), amt))
                    h.check('%s residual cost' % what + tag, EQ(res.get_edge_attr(nm(a), nm(b), 'cost'), c))
                else:
                    h.check('a %s residual arc exists where flow can be %s' % (
                        what, 'added' if what == 'forward' else 'withdrawn') + tag, amt <= 0)
        h.check('no other residual arcs' + tag, len(seen) == len(got))
        h.check('the graph itself is untouched by create_residual_graph' + tag,
                AND([EQ(g.get_edge_attr(nm(i), nm(j), 'flow'), flow[k]) for k, (i, j) in enumerate(arcs)]))
        h.observe('residual%d' % r, sorted(got))
        if r == augment:
            return
        cycles = [c for c in residual_cycles(n, arcs) if all(
            ((arcs[k] if d > 0 else arcs[k][::-1]) in got) for k, d in c)]
        if not cycles:
            return
        cyc = cycles[h.choice('cycle%d' % r, len(cycles))]
        rot = h.choice('rotate%d' % r, len(cyc))
        cyc = cyc[rot:] + cyc[:rot]
        nodes = [arcs[k][0] if d > 0 else arcs[k][1] for k, d in cyc]
        limit = h.call('find_cycle_capacity', res.find_cycle_capacity, [nm(v) for v in nodes])
        rc = [cap[k] - flow[k] if d > 0 else flow[k] for k, d in cyc]
        h.check('the cycle capacity is the least residual capacity' + tag,
                AND(AND([limit <= x for x in rc]), OR([EQ(limit, x) for x in rc])))
        if amount == 'all':
            amt = limit
        else:
            amt = h.num('amount%d' % r, 0, den=den)
            h.assume(AND([amt >= 0] + [amt <= x for x in rc]))
        old = list(flow)
        h.call('augment_cycle', g.augment_cycle, amt, [nm(v) for v in nodes])
        flow = [g.get_edge_attr(nm(i), nm(j), 'flow') for i, j in arcs]
        step = {k: d for k, d in cyc}
        tag = ' (augmentation %d)' % (r + 1)
        for k in range(m):
            h.check('augmenting changes the flow on exactly the arcs of the cycle by the amount' + tag,
                    EQ(flow[k], old[k] + step.get(k, 0) * amt))
        h.check('the flow stays within the capacities' + tag,
                AND([AND(0 <= flow[k], flow[k] <= cap[k]) for k in range(m)]))
        for v in range(n):
            h.check('every node keeps its net outflow' + tag,
                    EQ(SUM(flow[k] - old[k] for k, a in enumerate(arcs) if a[0] == v),
                       SUM(flow[k] - old[k] for k, a in enumerate(arcs) if a[1] == v)))
        h.check('costs and capacities are untouched' + tag,
                AND([AND(EQ(g.get_edge_attr(nm(i), nm(j), 'capacity'), cap[k]),
                         EQ(g.get_edge_attr(nm(i), nm(j), 'cost'), cost[k])) for k, (i, j) in enumerate(arcs)]))
        h.observe('flow%d' % r, flow)


def scenarios(tier):
    S = []
    T = tier == 'thorough'

    def add(**k):
        S.append((residual, k))
    for nk in ('int', 'str', 'mixed', 'neg', 'big', 'digit'):
        add(n=3, arcs=all_edges(3), orient=True, names=nk, augment=1, state='' if T or nk == 'int' else '*m')
    add(n=3, arcs=all_edges(3), orient=True, names='str', augment=1, state='m' if T else '*m', den=4)
    add(n=3, arcs=all_edges(3), orient=True, augment=2, amount='all', state='' if T else '*mm')
    add(n=4, arcs=all_edges(4), orient=True, names='str', state='' if T else '*m*sz*')
    add(n=4, arcs=[(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)], names='int', augment=1, fixed=2 if T else 5, state='' if T else '**m*s')
    add(n=4, arcs=[(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)], names='int', augment=1, state='mmmm*')
    for k, (name, (n, a)) in enumerate(sorted(NETS.items())):
        nk = ('int', 'str', 'mixed', 'big', 'neg')[k % 5]
        m = len(a)
        if T:
            add(n=n, arcs=a, names=nk, state='*' * 8 + 'm')
            for st in ('*m' * 5, 'm*' * 5, 'zm*' * 3, 's*m' * 3):
                add(n=n, arcs=a, names=nk, augment=1, state=st)
            continue
        add(n=n, arcs=a, names=nk, state=('*m*s*z*m*', 'm*z*m*s*m', 's**m**m*z')[k % 3])
        if m <= 7:
            add(n=n, arcs=a, names=nk, augment=1, state=('m*mmsm*zm', '*mmzm*mms', 'mmm*ms*mm')[k % 3])
    # ten nodes on a ring with two chords
    R10 = [(3, 1), (6, 1), (6, 0), (0, 7), (7, 4), (2, 4), (2, 5), (5, 8), (8, 9), (9, 3), (1, 8), (4, 3)]
    for k, nk in enumerate(('ten', 'tens', 'str')):
        add(n=10, arcs=R10, names=nk, state=('m*szmmmsm*mm', 'zmmm*mmsmmz*', 'mmmmmm*mmmmm')[k])
        add(n=10, arcs=R10, names=nk, augment=1, amount=('sym', 'all', 'sym')[k], data=(
            [(4, 2), (3, 1), (5, 2), None, (6, 3), (2, 1), (4, 3), (5, 5), (9, 4), (3, 1), (2, 0), (7, 7)],
            [(4, 2), (2, 1), (2, 1), (8, 7), (6, 3), None, (4, 3), (5, 0), (9, 4), (3, 1), None, (7, 7)],
            [None, (3, 1), (5, 0), (4, 4), (6, 3), (2, 1), (4, 3), (5, 5), (9, 4), (3, 1), (2, 0), (7, 0)])[k])
    if T:
        add(n=3, arcs=all_edges(3), orient=True, augment=3, state='mm')
        add(n=4, arcs=all_edges(4), orient=True, names='str', augment=1, state='m*m*m')
    othernames(S)
    return S
