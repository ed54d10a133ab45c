"""A reader for the DOT language: what Graphviz understands of a text."""
import re

TOK = re.compile(r'\s*(?:(->|--|[{}\[\];,=:])|([A-Za-z_\x80-\U0010ffff][A-Za-z0-9_\x80-\U0010ffff]*)'
                 r'|(-?(?:\.[0-9]+|[0-9]+(?:\.[0-9]*)?))|("(?:[^"\\]|\\.)*")|$)', re.S)


class Bad(Exception):
    pass


def unquote(s):
    out, i = [], 1
    while i < len(s) - 1:
        if s[i] == '\\' and s[i + 1] == '"':
            out.append('"')
            i += 2
        elif s[i] == '\\' and s[i + 1] == '\n':
            i += 2
        elif s[i] == '\\':
            out.append(s[i:i + 2])
            i += 2
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


def tokens(text):
    out, i = [], 0
    while i < len(text):
        m = TOK.match(text, i)
        if not m or m.end() == i:
            raise Bad('bad character at %r' % text[i:i + 20])
        i = m.end()
        if m.group(1):
            out.append(('p', m.group(1)))
        elif m.group(2):
            if m.group(2).lower() in ('node', 'edge', 'graph', 'digraph', 'subgraph', 'strict'):
                out.append(('k', m.group(2).lower()))
            else:
                out.append(('id', m.group(2)))
        elif m.group(3):
            if i < len(text) and (text[i].isalnum() or text[i] in '_"'):
                raise Bad('text follows a number')
            out.append(('id', m.group(3)))
        elif m.group(4):
            out.append(('id', unquote(m.group(4))))
    return out


def parse(text, toks=None):
    """dict(kind, name, attrs, nodes, edges, clusters); nodes: (name, attrs, cluster),
    edges: (tail, head, attrs, arrow, cluster), clusters: name -> (attrs, node defaults)"""
    ts = (tokens(text) if toks is None else toks) + [('end', '')]
    p = [0]

    def peek():
        return ts[p[0]]

    def take(*want):
        t = ts[p[0]]
        if want and t not in want and t[0] not in want:
            raise Bad('unexpected %r' % (t,))
        p[0] += 1
        return t[1]

    def attrs():
        d = {}
        while peek() == ('p', '['):
            take()
            while peek() != ('p', ']'):
                k = take('id')
                take(('p', '='))
                if k in d:
                    raise Bad('attribute twice')
                d[k] = take('id')
                if peek() in (('p', ','), ('p', ';')):
                    take()
            take(('p', ']'))
        return d
    res = dict(nodes=[], edges=[], clusters={})
    if peek() == ('k', 'strict'):
        take()
    res['kind'] = take(('k', 'graph'), ('k', 'digraph'))
    res['name'] = take('id') if peek()[0] == 'id' else None
    take(('p', '{'))
    res['attrs'] = {}

    def body(cluster, own):
        while peek() != ('p', '}'):
            t = peek()
            if t == ('p', ';'):
                take()
            elif t == ('k', 'subgraph'):
                take()
                name = take('id')
                if name in res['clusters']:
                    raise Bad('subgraph twice')
                res['clusters'][name] = ({}, {})
                take(('p', '{'))
                body(name, res['clusters'][name])
            elif t[0] == 'k':
                take()
                d = attrs()
                if t[1] == 'node' and cluster is not None:
                    own[1].update(d)
            else:
                a = take('id')
                if peek() == ('p', '='):
                    take()
                    (own[0] if cluster is not None else res['attrs'])[a] = take('id')
                elif peek() in (('p', '->'), ('p', '--')):
                    arrow = take()
                    b = take('id')
                    res['edges'].append((a, b, attrs(), arrow, cluster))
                else:
                    res['nodes'].append((a, attrs(), cluster))
                if peek() == ('p', ';'):
                    take()
        take(('p', '}'))
    body(None, None)
    take('end')
    return res
