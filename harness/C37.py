"""C37  the steps of the network simplex method keep a spanning tree solution."""
from .flow import *

BOUNDS = {
    'quick': 'unbounded symbolic capacities, costs and flows within the bounds on every connected network without antiparallel '
             'arcs with 3 nodes and on the listed ones with 4-10 nodes and up to 14 arcs (there some arcs are fixed to be '
             'empty, saturated or in between, some costs fixed); every root; both pivot rules and every non-tree arc '
             'entering; up to two pivots in a row; search and potentials on every oriented tree with 4 nodes and on listed '
             'ones with up to 10; cycles of every network with 4 nodes and symbolic subsets of larger ones',
    'thorough': 'as quick with fewer arcs fixed to a state, three pivots and every oriented tree with 5 nodes'}
OUTSIDE = 'antiparallel arcs and self-loops, networks that are not connected, the colours and labels of arcs'


def tree_paths(n, tarcs, root):
    """parent and depth of every node in the tree with the given arcs"""
    par, dep, todo = {root: None}, {root: 0}, [root]
    while todo:
        u = todo.pop()
        for i, j in tarcs:
            for a, b in ((i, j), (j, i)):
                if a == u and b not in par:
                    par[b], dep[b] = u, dep[u] + 1
                    todo.append(b)
    return par, dep


def is_tree(n, tarcs):
    return len(tarcs) == n - 1 and len(set(components(n, tarcs))) == 1


def arcs_of(h, g, inv, tag):
    el = h.call('get_edge_list', g.get_edge_list)
    h.check('the arcs join nodes of the network' + tag, all(e[0] in inv and e[1] in inv for e in el))
    got = [(inv[e[0]], inv[e[1]]) for e in el if e[0] in inv and e[1] in inv]
    h.check('no arc twice' + tag, len(set(got)) == len(got))
    return got


def check_search(h, t, n, tarcs, root, nm, inv, tag):
    pred = h.call('simplex_search', t.simplex_search, nm(root), 1)
    par, dep = tree_paths(n, tarcs, root)
    h.check('simplex_search: predecessors are those of the rooted tree' + tag,
            {inv[v]: (None if p is None else inv.get(p)) for v, p in pred.items() if v in inv} == par)
    for v in range(n):
        p = h.call('get_node_attr', t.get_node_attr, nm(v), 'pred')
        h.check('simplex_search: attribute pred' + tag, (p is None) if v == root else p == nm(par[v]))
        h.check('simplex_search: attribute depth' + tag, t.get_node_attr(nm(v), 'depth') == dep[v])
        h.check('simplex_search: attribute component' + tag, t.get_node_attr(nm(v), 'component') == 1)
    seq, v = [], root
    for _ in range(n):
        seq.append(v)
        v = inv.get(t.get_node_attr(nm(v), 'thread'), -1)
        if v == -1:
            break
    h.check('simplex_search: the thread visits every node once and returns to the root' + tag,
            sorted(seq) == list(range(n)) and v == root)
    h.check('simplex_search: the thread goes through the subtrees one after the other' + tag,
            all(par[seq[k + 1]] in ancestors(par, seq[k]) for k in range(len(seq) - 1)))
    return par, dep


def ancestors(par, v):
    out = set()
    while v is not None:
        out.add(v)
        v = par[v]
    return out


def check_potentials(h, g, t, n, arcs, cost, tarcs, root, nm, tag):
    h.call('simplex_compute_potentials', g.simplex_compute_potentials, t, nm(root))
    pi = [g.get_node_attr(nm(v), 'potential') for v in range(n)]
    h.check('the potential of the root is zero' + tag, EQ(pi[root], 0))
    for k, (i, j) in enumerate(arcs):
        if (i, j) in tarcs:
            h.check('tree arcs have reduced cost zero' + tag, EQ(cost[k] - pi[i] + pi[j], 0))
    return [cost[k] - pi[i] + pi[j] for k, (i, j) in enumerate(arcs)]


def check_solution(h, n, arcs, cap, net, flow, tarcs, tag):
    h.check('the solution is a spanning tree' + tag, is_tree(n, tarcs))
    h.check('tree arcs are arcs of the network' + tag, all(a in arcs for a in tarcs))
    for k, a in enumerate(arcs):
        h.check('the flow stays within the capacities' + tag, AND(flow[k] >= 0, flow[k] <= cap[k]))
        if a not in tarcs:
            h.check('arcs outside the tree are empty or full' + tag, OR(EQ(flow[k], 0), EQ(flow[k], cap[k])))
    for v in range(n):
        h.check('every node keeps its net outflow' + tag, EQ(outflow(arcs, flow, v), net[v]))


def outflow(arcs, flow, v):
    return (SUM(flow[k] for k, a in enumerate(arcs) if a[0] == v)
            - SUM(flow[k] for k, a in enumerate(arcs) if a[1] == v))


def violation(cap, flow, rc):
    return AND(cap > 0, OR(AND(EQ(flow, 0), rc < 0), AND(EQ(flow, cap), rc > 0)))


def same_numbers(h, t, g, arcs, tarcs, nm, cap, cost, flow, tag):
    for k, (i, j) in enumerate(arcs):
        if (i, j) in tarcs:
            h.check('the tree has the numbers of its arcs' + tag,
                    AND(EQ(t.get_edge_attr(nm(i), nm(j), 'flow'), flow[k]),
                        EQ(t.get_edge_attr(nm(i), nm(j), 'capacity'), cap[k]),
                        EQ(t.get_edge_attr(nm(i), nm(j), 'cost'), cost[k])))


def setup(h, n, arcs, orient, fixed, names, state, ucon, ccon, fcon, den, perm=None):
    if orient:
        arcs = one_per_pair(h, n, [tuple(a) for a in arcs])
    else:
        arcs = subset(h, [tuple(a) for a in arcs], len(arcs) if fixed is None else fixed)
    h.assume(is_connected(n, arcs))
    base = namer(names)
    perm = perm or list(range(n))
    nm = lambda i: base(perm[i])
    m = len(arcs)

    def pick(con, k, f):
        return con[k] if k < len(con) and con[k] is not None else f()
    cap = [pick(ucon, k, lambda: h.num('u%d' % k, 0, den=den)) for k in range(m)]
    cost = [pick(ccon, k, lambda: h.num('c%d' % k, den=den)) for k in range(m)]
    flow = []
    for k in range(m):
        f = pick(fcon, k, lambda: h.num('f%d' % k, 0, den=den))
        st = state[k] if k < len(state) else '*'
        h.assume(AND(f >= 0, f <= cap[k]) if st == '*' else AND(f > 0, f < cap[k]) if st == 'm' else
                 EQ(f, 0) if st == 'z' else AND(EQ(f, cap[k]), f > 0))
        flow.append(f)
    g = new_graph(True)
    for i in sorted(range(n), key=lambda i: perm[i]):
        g.add_node(nm(i))
    for k, (i, j) in enumerate(arcs):
        g.add_edge(nm(i), nm(j), capacity=cap[k], cost=cost[k], flow=flow[k])
    return g, arcs, nm, {nm(i): i for i in range(n)}, cap, cost, flow


def get_flow(g, arcs, nm):
    return [g.get_edge_attr(nm(i), nm(j), 'flow') for i, j in arcs]


def check_cycle(h, cyc, got, inv, tag):
    ok = isinstance(cyc, list) and all(v in inv for v in cyc)
    h.check('simplex_find_cycle gives nodes of the network' + tag, ok)
    c = [inv[v] for v in cyc]
    h.check('simplex_find_cycle gives a cycle of arcs of the solution' + tag,
            len(c) >= 3 and len(set(c)) == len(c) and
            all((a, b) in got or (b, a) in got for a, b in zip(c, c[1:] + c[:1])))
    return c


def steps(h, n, arcs, orient=False, fixed=None, names='int', state='', ucon=(), ccon=(), fcon=(), den=1,
          pivot='dantzig', root='any', pivots=1, perm=None, value=False, twice=False):
    g, arcs, nm, inv, cap, cost, flow = setup(h, n, arcs, orient, fixed, names, state, ucon, ccon, fcon, den, perm)
    m = len(arcs)
    net = [outflow(arcs, flow, v) for v in range(n)]
    sol = h.call('get_simplex_solution_graph', g.get_simplex_solution_graph)
    h.check('the solution graph has the nodes of the network', sol.get_node_list() == g.get_node_list())
    got = arcs_of(h, sol, inv, ' (solution graph)')
    h.check('the solution graph has only arcs of the network', all(a in arcs for a in got))
    for k, a in enumerate(arcs):
        free = AND(flow[k] > 0, flow[k] < cap[k])
        h.check('the solution graph has exactly the arcs with flow between the bounds', free if a in got else NOT(free))
    cyc = h.call('simplex_find_cycle', sol.simplex_find_cycle)
    forest = len(got) == n - len(set(components(n, got)))
    h.check('simplex_find_cycle finds a cycle exactly if there is one', (cyc is None) == forest)
    if cyc is not None:
        c = check_cycle(h, cyc, got, inv, '')
        amt = h.call('simplex_augment_cycle', g.simplex_augment_cycle, cyc)
        rc = []
        for a, b in zip(c, c[1:] + c[:1]):
            rc.append(cap[arcs.index((a, b))] - flow[arcs.index((a, b))] if (a, b) in arcs else flow[arcs.index((b, a))])
        h.check('simplex_augment_cycle gives what the cycle can take', AND(AND([amt <= x for x in rc]), OR([EQ(amt, x) for x in rc])))
    h.check('asking changes no flow', AND([EQ(a, b) for a, b in zip(get_flow(g, arcs, nm), flow)]))
    t = h.call('simplex_find_tree', g.simplex_find_tree)
    r = h.choice('root', n) if root == 'any' else root
    flow = get_flow(g, arcs, nm)
    tarcs = arcs_of(h, t, inv, ' (tree)')
    h.check('the tree has the nodes of the network', sorted(map(inv.get, t.get_node_list())) == list(range(n)))
    check_solution(h, n, arcs, cap, net, flow, tarcs, ' (first tree)')
    same_numbers(h, t, g, arcs, tarcs, nm, cap, cost, flow, ' (first tree)')
    h.observe('tree', sorted(tarcs))
    for p in range(pivots + 1):
        tag = ' (after %d pivots)' % p if p else ''
        par, dep = check_search(h, t, n, tarcs, r, nm, inv, tag)
        rc = check_potentials(h, g, t, n, arcs, cost, tarcs, r, nm, tag)
        opt = h.call('simplex_optimal', g.simplex_optimal, t)
        out = [k for k, a in enumerate(arcs) if a not in tarcs]
        bad = OR([violation(cap[k], flow[k], rc[k]) for k in out])
        h.check('simplex_optimal tells whether every arc outside the tree has the right reduced cost' + tag,
                NOT(bad) if opt else bad)
        h.observe('optimal%d' % p, bool(opt))
        if p == pivots:
            if opt and not value:
                check_optimal(h, n, arcs, cap, cost, flow, tag)
            break
        if pivot == 'every':
            use = [k for k in out if bool(cap[k] > 0)]
            if not use:
                break
            kl = arcs[use[h.choice('enter%d' % p, len(use))]]
        else:
            if opt:
                break
            e = h.call('simplex_select_entering_arc', g.simplex_select_entering_arc, t, pivot)
            h.check('the entering arc is an arc outside the tree' + tag, isinstance(e, tuple) and len(e) == 2 and (
                inv.get(e[0]), inv.get(e[1])) in [arcs[k] for k in out])
            kl = (inv[e[0]], inv[e[1]])
            k = arcs.index(kl)
            h.check('the entering arc has a reduced cost that is not right' + tag, violation(cap[k], flow[k], rc[k]))
            if pivot == 'dantzig':
                for j in out:
                    h.check('no arc has a worse reduced cost than the entering arc' + tag,
                            IMP(violation(cap[j], flow[j], rc[j]),
                                AND([OR(a <= rc[k], a <= -rc[k]) for a in (rc[j], -rc[j])])))
        e = arcs.index(kl)
        i, j = kl
        full = bool(AND(EQ(flow[e], cap[e]), flow[e] > 0))
        (lv, amt, cycle) = h.call('simplex_determine_leaving_arc', g.simplex_determine_leaving_arc, t, nm(i), nm(j))
        # the arcs of the pivot cycle and whether the flow on them grows
        par, dep = tree_paths(n, tarcs, j)
        grow = {e: -1 if full else 1}
        v = i
        while v != j:       # the tree path from j to i, used from j on if (i, j) grows
            u = par[v]
            a, d = ((u, v), 1) if (u, v) in arcs else ((v, u), -1)
            grow[arcs.index(a)] = -d if full else d
            v = u
        room = {k: cap[k] - flow[k] if d > 0 else flow[k] for k, d in grow.items()}
        h.check('the cycle has the nodes of the entering arc and the tree path' + tag,
                sorted(inv.get(v, -1) for v in cycle) == sorted({v for k in grow for v in arcs[k]}))
        h.check('the amount is what the cycle can take' + tag,
                AND(AND([amt <= x for x in room.values()]), OR([EQ(amt, x) for x in room.values()])))
        ok = isinstance(lv, tuple) and len(lv) == 2 and (inv.get(lv[0]), inv.get(lv[1])) in [arcs[k] for k in grow]
        h.check('the leaving arc is on the cycle' + tag, ok)
        lk = arcs.index((inv[lv[0]], inv[lv[1]]))
        h.check('the leaving arc takes no more than the amount' + tag, EQ(room[lk], amt))
        h.call('simplex_remove_arc', g.simplex_remove_arc, t, lv[0], lv[1], amt, cycle)
        new = get_flow(g, arcs, nm)
        tag = ' (pivot %d)' % (p + 1)
        for k in range(m):
            h.check('a pivot changes the flow along the cycle by the amount' + tag, EQ(new[k], flow[k] + grow.get(k, 0) * amt))
        want = sorted([a for a in tarcs if a != arcs[lk]] + ([kl] if lk != e else []))
        tarcs = arcs_of(h, t, inv, tag)
        h.check('a pivot exchanges the leaving arc for the entering arc' + tag, sorted(tarcs) == want)
        if value:
            h.check('a pivot does not make the flow more expensive' + tag,
                    SUM(cost[k] * new[k] for k in range(m)) <= SUM(cost[k] * flow[k] for k in range(m)))
        flow = new
        check_solution(h, n, arcs, cap, net, flow, tarcs, tag)
        same_numbers(h, t, g, arcs, tarcs, nm, cap, cost, flow, tag)
        h.call('simplex_mark_st_arcs', g.simplex_mark_st_arcs, t)
        h.check('marking the arcs changes no flow' + tag, AND([EQ(a, b) for a, b in zip(get_flow(g, arcs, nm), flow)]))
        h.observe('leaving%d' % p, arcs[lk])
        h.observe('flow%d' % p, flow)
    new = h.call('simplex_redraw', t.simplex_redraw, 'off', nm(r))
    h.check('simplex_redraw gives the same tree', sorted(arcs_of(h, new, inv, ' (redraw)')) == sorted(tarcs)
            and sorted(map(inv.get, new.get_node_list())) == list(range(n)))
    same_numbers(h, new, g, arcs, tarcs, nm, cap, cost, flow, ' (redraw)')


def index(h, n, tree=None, names='int', root='any', flip=True, again=False):
    """search and potentials on a tree; tree: parents, None entries symbolic"""
    nm = namer(names)
    tarcs = []
    for v in range(1, n):
        p = tree[v - 1] if tree and tree[v - 1] is not None else h.choice('p%d' % v, v)
        tarcs.append((p, v) if not (flip and h.bool('up%d' % v)) else (v, p))
    cost = [h.num('c%d' % k) for k in range(n - 1)]
    g, t = new_graph(True), new_graph(True)
    for i in range(n):
        g.add_node(nm(i))
        t.add_node(nm(n - 1 - i))
    for k, (i, j) in enumerate(tarcs):
        g.add_edge(nm(i), nm(j), cost=cost[k])
        t.add_edge(nm(i), nm(j))
    inv = {nm(i): i for i in range(n)}
    r = h.choice('root', n) if root == 'any' else root
    for x in range(2 if again else 1):
        tag = ' (again)' if x else ''
        check_search(h, t, n, tarcs, r, nm, inv, tag)
        check_potentials(h, g, t, n, tarcs, cost, tarcs, r, nm, tag)
        r = (r + 1) % n


def cycles(h, n, arcs, orient=False, fixed=0, names='int', connect=False):
    """simplex_find_cycle on a network; simplex_connect on a forest"""
    nm = namer(names)
    arcs = one_per_pair(h, n, [tuple(a) for a in arcs]) if orient else subset(h, [tuple(a) for a in arcs], fixed)
    inv = {nm(i): i for i in range(n)}
    g = build(h, True, n, arcs, nm)
    if not connect:
        cyc = h.call('simplex_find_cycle', g.simplex_find_cycle)
        forest = len(arcs) == n - len(set(components(n, arcs)))
        h.check('simplex_find_cycle finds a cycle exactly if there is one', (cyc is None) == forest)
        if cyc is not None:
            h.observe('cycle', check_cycle(h, cyc, arcs, inv, ''))
        return
    h.assume(is_connected(n, arcs))
    have = []
    for k, a in enumerate(arcs):        # a forest
        if len(set(components(n, have + [a]))) < len(set(components(n, have))) and h.bool('in%d' % k):
            have.append(a)
    s = build(h, True, n, have, nm)
    while True:
        before = list(have)
        more = h.call('simplex_connect', g.simplex_connect, s)
        have = arcs_of(h, s, inv, '')
        whole = len(set(components(n, before))) == 1
        h.check('simplex_connect adds an arc exactly if the forest is no tree', bool(more) == (not whole))
        h.check('simplex_connect adds one arc that joins two parts, or none',
                set(before) <= set(have) and set(have) <= set(arcs) and len(have) == len(before) + (not whole)
                and len(have) == n - len(set(components(n, have))))
        if not more:
            break
    h.observe('tree', sorted(have))


def scenarios(tier):
    S = []
    T = tier == 'thorough'

    def add(f=steps, **k):
        S.append((f, k))
    for nk in ('int', 'str', 'mixed', 'neg', 'big', 'digit'):
        pv = ('dantzig', 'first_eligible', 'every')[('int', 'str', 'mixed', 'neg', 'big', 'digit').index(nk) % 3]
        add(n=3, arcs=all_edges(3), orient=True, names=nk, pivot=pv, pivots=2, state='' if T or nk == 'int' else '*m')
    add(n=3, arcs=all_edges(3), orient=True, names='str', pivot='dantzig', den=4, state='m')
    add(n=2, arcs=[(0, 1)], names='mixed', pivot='every')
    for pv in ('dantzig', 'first_eligible', 'every'):
        add(n=4, arcs=all_edges(4), orient=True, names='str', pivot=pv, pivots=1, state='zmszsz', ccon=[None, 1, None, -2, None, 0], root=2,
            ucon=() if T else [None, 3, 4, None, 2, 5])
        add(n=4, arcs=[(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)], pivot=pv, pivots=2 if T and pv != 'every' else 1, state='mmmm*', names='neg', ccon=[None, 1, 0, None, 2], root=1,
            ucon=() if T and pv != 'every' else [None, 4, None, 3, 5])
        for k, (name, (n, a)) in enumerate(sorted(NETS.items())):
            nk = ('int', 'str', 'mixed', 'big', 'neg')[k % 5]
            C = [None, 1, -2, None, 3, 0, None, 1, -1]
            for st in ('*mz*smzms', 'mz*sm*zsm'):
                if T or (k + (pv == 'every')) % 2 == (st[0] == 'm'):
                    add(n=n, arcs=a, names=nk, state=st, pivot=pv, ccon=C, root=(k + 1) % n,
                        pivots=2 if T and pv != 'every' else 1, ucon=[4, None, 3, None, 5, 2, 3, 4, 3])
            # fixed flows and capacities, symbolic costs
            U = [3, 4, 2, 5, 3, 4, 2, 3, 5]
            F = [3, 1, 0, 2, 0, 4, 1, 0, 2]
            add(n=n, arcs=a, names=nk, ucon=U, fcon=F, pivot=pv, root='any' if k % 3 == 0 or T else k % n, perm=list(range(n))[::-1], pivots=2,
                ccon=() if T else [None, None, 1, None, -2, None, 2, 0, 1], value=(k % 2 == 0 and pv != 'every'))
            add(n=n, arcs=a, names=nk, ccon=[2, -1, 3, 1, -2, 0, 4, -3, 1], pivot=pv, root=0, pivots=1 if pv == 'every' else 2 if not T else 3, value=pv != 'every',
                state=('*z*s', 's*z*m')[k % 2] + 'zszsz')
    for pv in ('dantzig', 'first_eligible', 'every'):
        add(n=10, arcs=WIDE, names='ten', pivot=pv, state='mzszmzszmzszm*', pivots=2 if T and pv != 'every' else 1, root=3 if pv == 'dantzig' else 0,
            ccon=[None, 1, -2, 3, None, 2, 0, -1, 4, 2, None, 5, 1, -3], ucon=[None, 4, 5, 3, 6, 2, 5, 3, 4, 2, 4, None, 5, 3])
        add(n=10, arcs=WIDE[::-1], names='tens', pivot=pv, ucon=[4, 3, 5, 6, 8, 3, 11, 5, 7, 6, 4, 8, 9, 7],
            fcon=[4, 0, 2, 6, 1, 0, 0, 5, 7, 0, 2, 3, 0, 7], pivots=2, root=9, ccon=[1, -2, 3, 1, None, 2, 0, -1, 4, 2, 1, 5, None, -3], value=False)
    # search and potentials
    for nk in ('int', 'str', 'mixed', 'neg', 'big', 'digit', 'float'):
        add(index, n=4, names=nk, again=nk == 'str')
    add(index, n=5, names='mixed', root=3 if not T else 'any', again=T)
    add(index, n=6, names='big', tree=[0, 1, None, None, 3], root='any', flip=T)
    add(index, n=10, names='ten', tree=[0, 1, 1, 3, 3, 0, 6, None, 8], again=True, flip=False)
    add(index, n=10, names='tens', tree=[0, 1, 2, 3, None, 5, 6, 7, 8], flip=False)
    # cycles
    for nk in ('int', 'str', 'neg'):
        add(cycles, n=4, arcs=all_edges(4), orient=True, names=nk)
        if T or nk == 'str':
            add(cycles, n=4, arcs=all_edges(4), orient=True, names=nk, connect=True)
    for k, (name, (n, a)) in enumerate(sorted(NETS.items())):
        nk = ('mixed', 'str', 'int', 'big', 'neg')[k % 5]
        add(cycles, n=n, arcs=a, names=nk)
        add(cycles, n=n, arcs=a, names=nk, connect=True, fixed=0 if T else 2)
    add(cycles, n=5, arcs=[(a, b) if (a + b) % 3 else (b, a) for a, b in all_edges(5)], names='digit')
    add(cycles, n=10, arcs=WIDE, names='ten', fixed=4)
    add(cycles, n=10, arcs=WIDE, names='tens', fixed=13, connect=True)
    othernames(S)
    return S
