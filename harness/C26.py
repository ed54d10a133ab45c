"""C26  names and labels are written as DOT identifiers that mean the same."""
import inspect
from .common import *
from . import symdot as sd

BOUNDS = {
    'quick': 'strings of up to 5 symbolic characters alone and behind or before fixed parts, as text and as every name (tail, head, loop, in a cluster), '
             'label and attribute of a graph (up to 3 symbolic characters there); a character is any code point from 1 to '
             '0x10FFFF but the surrogates',
    'thorough': 'as quick with up to 6 symbolic characters, 4 inside a graph'}
OUTSIDE = ('the character 0, <...> and "..." supplied by the user, DOT keywords and ports in node names (all of them '
           'passed on as written, as documented in needs_quotes), longer strings')


def quote(h, n, pre='', post='', ports=True):
    gp()
    import gimpy.global_constants as K
    s = pre + h.text('s', n) + post
    cs = sd.plain_text(h, s, ports)
    k = {}
    if not ports:
        if 'ports' not in inspect.signature(K.quote_if_necessary).parameters:
            return
        k['ports'] = False
    r = h.call('quote_if_necessary', K.quote_if_necessary, s, **k)
    h.check('a string becomes a string', isinstance(r, str))
    try:
        ts = sd.tokens(h.chars(r))
    except sd.Bad:
        h.fail('the text put in the DOT source can be read')
    h.check('it is one identifier', len(ts) == 1 and ts[0][0] == 'id')
    h.check('it stands for the string', len(ts) == 1 and ts[0][0] == 'id' and sd.same(ts[0][1], cs))
    h.observe('quoted', r)


def graph(h, where, n, directed=True, pre='', post=''):
    """one symbolic text somewhere in a graph with two nodes, one edge and a cluster"""
    G = gp()
    s = pre + h.text('s', n) + post
    named = ('node', 'head', 'loop', 'inside')
    role, where = where, 'node' if where in named else where
    cs = sd.plain_text(h, s, where == 'node')
    at = {w: (s if w == where else 'plain') for w in
          ('node', 'label', 'elabel', 'clabel', 'cname', 'cnode', 'gname', 'glabel')}
    if where in ('node', 'cname'):
        # the other names of the graph are different ones
        h.assume(NOT(AND([True] + [EQ(a, ord(b)) for a, b in zip(cs, 'plain')])) if len(cs) == 5 else True)
    g = new_graph(directed, name=at['gname'], label=at['glabel'])
    a, b = at['node'], 'other'
    h.call('add_node', g.add_node, a, label=at['label'])
    h.call('add_node', g.add_node, b)
    if role == 'node':
        e = (a, b)
    elif role == 'loop':
        e = (a, a)
    else:
        e = (b, a)
    h.call('add_edge', g.add_edge, *e, label=at['elabel'])
    c, o = (a, b) if role == 'inside' else (b, a)
    h.call('create_cluster', g.create_cluster, [c], {'name': at['cname'], 'label': at['clabel']}, {'tooltip': at['cnode']})
    t = h.call('to_string', g.to_string)
    try:
        d = sd.parse(None, sd.tokens(h.chars(t)))
    except sd.Bad:
        h.fail('to_string yields a text in the DOT language')
    h.check('two nodes', len(d['nodes']) == 2)
    h.check('one edge', len(d['edges']) == 1)
    h.check('one cluster', len(d['clusters']) == 1)
    if len(d['nodes']) != 2 or len(d['edges']) != 1 or len(d['clusters']) != 1:
        raise sd.expr.PathEnd()

    def means(v, x):
        return v is not None and sd.same(v, cs if x is s else [ord(c) for c in x])
    for v, x in ((d['edges'][0][0], e[0]), (d['edges'][0][1], e[1]), (d['name'], at['gname']),
                 (d['attrs'].get('label'), at['glabel'])):
        h.check('names and attributes mean what was given', means(v, x))
    by = {1 if cl else 0: (name, attr) for name, attr, cl in d['nodes']}
    h.check('one node in the cluster and one outside', len(by) == 2)
    if len(by) == 2:
        h.check('the name of a node', means(by[0][0], o))
        h.check('the name of a node in a cluster', means(by[1][0], c))
        h.check('the label of a node', means(by[int(role == 'inside')][1].get('label'), at['label']))
    h.check('the label of an edge', means(d['edges'][0][2].get('label'), at['elabel']))
    (cn, (ca, cd)), = d['clusters'].items()
    h.check('the name of a cluster', sd.same(cn, [ord(c) for c in 'cluster_'] + (cs if where == 'cname' else [ord(c) for c in 'plain'])))
    h.check('the label of a cluster', means(ca.get('label'), at['clabel']))
    h.check('attributes for the nodes of a cluster', means(cd.get('tooltip'), at['cnode']))
    h.observe('text', t)


def others(h):
    """values that are not strings are written by str()"""
    gp()
    import gimpy.global_constants as K
    x = h.int('x')
    for v, w in ((True, 'True'), (False, 'False')):
        h.check('a truth value', str(h.call('quote_if_necessary', K.quote_if_necessary, v)) == w)
    r = h.call('quote_if_necessary', K.quote_if_necessary, x)
    h.check('a number is not changed', EQ(r, x))


def scenarios(tier):
    T = tier == 'thorough'
    S = [(others, {})]
    for ports in (True, False):
        for n in range(0, 7 if T else 6):
            S.append((quote, dict(n=n, ports=ports)))
        for pre, post in (('ab', ''), ('', '7'), ('"', ''), ('\\', ''), ('12', ''), ('two words', ''), ('', '\\'), ('a', '"'),
                          ('\u00e9', ''), ('', '\n'), ('<', 'b'), ('<', '') , ('nod', ''), ('x=', ';')):
            S.append((quote, dict(n=4 if T else 3, pre=pre, post=post, ports=ports)))
        S.append((quote, dict(n=1, pre='no', post='e', ports=ports)))
        S.append((quote, dict(n=1, pre='a long label, with ', post=' (many) words & "marks"\\', ports=ports)))
    for w in ('node', 'head', 'loop', 'inside', 'label', 'elabel', 'clabel', 'cname', 'cnode', 'gname', 'glabel'):
        for n in range(1 if w in ('node', 'head', 'loop', 'inside', 'cname') else 0, 5 if T else 4):
            S.append((graph, dict(where=w, n=n, directed=n % 2 == 0)))
        S.append((graph, dict(where=w, n=1, pre='b ', post='"')))
    return S
