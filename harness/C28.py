"""C28  hamiltonian(): a path is found exactly if there is one."""
import itertools
from .common import *

BOUNDS = {
    'quick': 'every simple graph with up to 4 nodes, undirected and directed, every source and every destination (or none), '
             'symbolic subsets of the listed graphs with 5-8 nodes; eight families of names; a second call on the same graph',
    'thorough': 'as quick with all undirected graphs with 5 nodes and larger subsets of the listed ones'}
OUTSIDE = 'graphs without nodes'


def paths(n, arcs, s, t, directed):
    have = set(arcs)
    if not directed:
        have |= {(j, i) for i, j in arcs}
    for p in itertools.permutations([i for i in range(n) if i != s]):
        p = (s,) + p
        if (t is None or p[-1] == t) and all(e in have for e in zip(p, p[1:])):
            return True
    return False


def ham(h, directed, n, arcs, names='int', fixed=0, source=None, twice=False, dest='any'):
    arcs = subset(h, arcs, fixed)
    nm = namer(names)
    g = build(h, directed, n, arcs, nm)
    have = set(arcs)
    if not directed:
        have |= {(j, i) for i, j in arcs}
    for rnd in range(1 + twice):
        s = h.choice('s%d' % rnd, n) if source is None or rnd else source
        t = h.choice('t%d' % rnd, n + 1) if dest == 'any' else n
        pred = {}
        args = {} if t == n else dict(destination=nm(t))
        r = h.call('hamiltonian', g.hamiltonian, nm(s), pred=pred, **args)
        h.check('hamiltonian answers True or False', r is True or r is False)
        t = None if t == n else t
        want = paths(n, arcs, s, t, directed)
        h.check('success exactly if there is a Hamiltonian path', bool(r) == want)
        if r and want:
            inv = {nm(i): i for i in range(n)}
            p = {inv[a]: inv[b] for a, b in pred.items() if a in inv and b in inv}
            # follow the predecessors back from some end
            good = False
            for e in range(n):
                seq = [e]
                while seq[-1] != s and seq[-1] in p and len(seq) <= n:
                    seq.append(p[seq[-1]])
                if sorted(seq) == list(range(n)) and seq[-1] == s and (t is None or e == t) \
                        and all((b, a) in have for a, b in zip(seq, seq[1:])):
                    good = True
            h.check('the recorded predecessors are a Hamiltonian path', good)
        h.observe('r%d' % rnd, r)
    nl = h.call('get_node_list', g.get_node_list)
    h.check('the graph keeps its nodes and edges', len(nl) == n and g.get_edge_num() == len(arcs))


def scenarios(tier):
    S = []
    T = tier == 'thorough'
    fam = ['int', 'big', 'str', 'digit', 'mixed', 'neg']

    def add(directed, n, arcs, **k):
        S.append((ham, dict(directed=directed, n=n, arcs=arcs, **k)))
    for k, nm in enumerate(fam):
        add(False, 4, all_edges(4), names=nm)
        add(True, 3, all_arcs(3), names=nm)
    add(True, 4, all_arcs(4), names='int', fixed=4 if not T else 0)
    add(True, 4, all_arcs(4), names='mixed', fixed=4 if not T else 0, source=0)
    add(False, 4, all_edges(4), names='int', twice=True, fixed=3)
    add(True, 3, all_arcs(3), names='str', twice=True, fixed=2)
    for t in ('wheel5', 'grid6', 'star6', 'path7'):
        n, a = topo(t)
        add(False, n, a, names='str', fixed=max(0, len(a) - (7 if not T else 10)))
    for t in ('diamond5', 'ladder6', 'cyc6', 'back5'):
        n, a = topo(t)
        add(True, n, a, names='big', fixed=max(0, len(a) - (6 if not T else 10)))
    add(False, 1, [], names='int')
    add(True, 2, [(1, 0)], names='int')
    # eight nodes: a path of the given order and some chords
    P8 = [(3, 1), (1, 6), (6, 0), (0, 7), (7, 4), (4, 2), (2, 5), (5, 3), (1, 4), (0, 2), (6, 5), (7, 3)]
    add(False, 8, P8, names='ten', fixed=9, source=3)
    add(True, 8, P8, names='tens', fixed=9, source=3)
    add(True, 8, P8, names='str', fixed=11)
    add(False, 8, P8, names='mixed', fixed=12, twice=True)
    if T:
        add(False, 5, all_edges(5), names='int')
    for d in (True, False):
        again(S, 'C28', 'ham', 'edge', 'last', 'node', directed=d, n=4, arcs=[(0, 1), (1, 2), (2, 3), (0, 2), (1, 3)], names='str', fixed=2, source=0)
    othernames(S)
    return S
