"""C32  drawing hands exactly the DOT text of the graph to the back end."""
import io
import os
import shutil
import tempfile
from symx import fakes
from .common import *

BOUNDS = {
    'quick': 'every graph with 3 nodes and symbolic subsets of 5 edges on 4 nodes, both types, with symbolic labels, clusters '
             'and highlighted nodes; every combination of display mode (off, file, PIL, matplotlib, xdot, unknown), layout '
             '(default, dot, neato, circo) and format (png, svg, dot); Graphviz present, missing, warning or failing; libraries missing; the window waiting, blocking or going on',
    'thorough': 'as quick with larger subsets'}
OUTSIDE = ('the pictures Graphviz, PIL, matplotlib and xdot make of the text (stand-ins record what they are given), '
           'layout dot2tex')

DOT = '''#!/bin/sh
for a in "$@"; do case "$a" in -T*) t="$a";; -*) ;; *) f="$a";; esac; done
echo "${0##*/} $t"
cat ${f:+"$f"}
%s
'''


class Place(object):
    """a directory with a Graphviz that shows what it is asked for"""
    def __init__(self, fault):
        self.fault = fault

    def __enter__(self):
        self.dir = d = tempfile.mkdtemp(prefix='gimpy_draw')
        self.old = os.getcwd(), os.environ.get('PATH'), tempfile.tempdir
        for x in ('bin', 'tmp', 'out'):
            os.mkdir(os.path.join(d, x))
        if self.fault != 'missing':
            tail = {'ok': '', 'warns': 'echo a warning >&2', 'fails': 'exit 3'}[self.fault]
            for l in ('dot', 'neato', 'circo', 'fdp'):
                p = os.path.join(d, 'bin', l)
                with open(p, 'w') as f:
                    f.write(DOT % tail)
                os.chmod(p, 0o755)
        os.chdir(os.path.join(d, 'out'))
        os.environ['PATH'] = os.path.join(d, 'bin') + ('' if self.fault == 'missing' else ':/usr/bin:/bin')
        tempfile.tempdir = os.path.join(d, 'tmp')
        return self

    def __exit__(self, *a):
        os.chdir(self.old[0])
        os.environ['PATH'] = self.old[1]
        tempfile.tempdir = self.old[2]
        shutil.rmtree(self.dir)

    def files(self):
        d = os.path.join(self.dir, 'out')
        return {x: open(os.path.join(d, x), 'rb').read() for x in os.listdir(d)}

    def left(self):
        return os.listdir(os.path.join(self.dir, 'tmp'))


LAYOUT = (None, 'dot', 'neato', 'circo')
MODES = ('off', 'file', 'PIL', 'matplotlib', 'xdot', 'no such mode')


def labels(h, n, arcs):
    return [h.int('n%d' % i) for i in range(n)], [h.int('e%d' % k) for k in range(len(arcs))]


def make(directed, n, arcs, nm, cluster, lab):
    g = new_graph(directed)
    for i in range(n):
        g.add_node(nm(i), label=lab[0][i])
    for k, (i, j) in enumerate(arcs):
        g.add_edge(nm(i), nm(j), label=lab[1][k])
    if cluster:
        g.create_cluster([nm(n - 1)], {'label': 'a b'})
    return g


def want(text, layout, fmt):
    if fmt == 'dot':
        return text.encode('utf8')
    return ('%s -T%s\n' % (layout, fmt)).encode() + text.encode('utf8')


def write(h, directed, n, arcs, names='str', fixed=0, faults=('ok',), cluster=False):
    arcs = subset(h, [tuple(a) for a in arcs], fixed)
    nm = namer(names)
    lab = labels(h, n, arcs)
    g = make(directed, n, arcs, nm, cluster, lab)
    fault = faults[h.choice('fault', len(faults))]
    own = LAYOUT[h.choice('own', 2) * 2]
    if own:
        h.call('set_layout', g.set_layout, own)
        h.check('get_layout tells the layout that was set', h.call('get_layout', g.get_layout) == own)
    layout = LAYOUT[h.choice('layout', len(LAYOUT))]
    fmt = ('png', 'svg', 'dot')[h.choice('format', 3)]
    text = h.call('to_string', g.to_string)
    out = io.BytesIO()
    kw = dict(format=fmt) if fmt != 'png' else {}
    with Place(fault) as p:
        if fault == 'fails' and fmt != 'dot':
            h.raises('a failing Graphviz is reported', Exception, g.write, out, layout, **kw)
        else:
            h.call('write', g.write, out, layout, **kw)
        if fault == 'missing' and fmt != 'dot':
            h.check('a missing Graphviz is reported', 'raphviz' in h.out)
        h.check('no temporary file is left behind', not p.left())
        h.check('no other file is written', not p.files())
    r = out.getvalue()
    if fmt != 'dot' and fault in ('missing', 'fails'):
        h.check('nothing is written without a picture', r == b'')
    else:
        h.check('write writes the picture of the text of the graph in the layout and format asked for',
                r == want(text, layout or own or 'fdp', fmt))
    h.check('the graph is not changed', h.call('to_string', g.to_string) == text)
    h.observe('written', len(r) > 0)


def display(h, directed, n, arcs, names='str', fixed=0, mode='file', faults=('ok',), cluster=False, light=False):
    arcs = subset(h, [tuple(a) for a in arcs], fixed)
    nm = namer(names)
    lab = labels(h, n, arcs)
    g = make(directed, n, arcs, nm, cluster, lab)
    fault = faults[h.choice('fault', len(faults))]
    layout = LAYOUT[1 + h.choice('layout', 3)]
    h.call('set_layout', g.set_layout, layout)
    if mode != 'off':
        h.call('set_display_mode', g.set_display_mode, mode)
    text = h.call('to_string', g.to_string)
    lit = [nm(i) for i in range(n) if light and h.bool('light%d' % i)]
    kw = {}
    if lit:
        kw['highlight'] = lit
    fmt, base = 'png', 'graph'
    if mode == 'file':
        fmt = ('png', 'svg', 'dot')[h.choice('format', 3)]
        if fmt != 'png':
            kw['format'] = fmt
        if h.bool('name'):
            kw['basename'] = base = 'step 1'
    del fakes.SEEN[:]
    with Place(fault) as p:
        h.call('display', g.display, **kw)
        files, left = p.files(), p.left()
    seen = list(fakes.SEEN)
    h.check('no temporary file is left behind', not left)
    if lit and mode not in ('off', 'no such mode'):
        # the text with the highlighted nodes, made on a second graph
        g2 = make(directed, n, arcs, nm, cluster, lab)
        g2.set_layout(layout)
        for v in lit:
            g2.set_node_attr(v, 'color', 'red')
        shown = h.call('to_string', g2.to_string)
    else:
        shown = text
    if mode == 'file':
        h.check('one file with the name and format asked for', list(files) == [base + '.' + fmt])
        r = files.get(base + '.' + fmt)
        if fault == 'missing' and fmt != 'dot':
            h.check('a missing Graphviz is reported', 'raphviz' in h.out)
            h.check('nothing is written without a picture', r == b'')
        else:
            h.check('the file holds the picture of the text of the graph', r == want(shown, layout, fmt))
        h.check('nothing is shown in a window', not seen)
    else:
        h.check('no file is written', not files)
        if mode in ('off', 'no such mode'):
            h.check('nothing is shown', not seen)
        else:
            h.check('one picture is shown in the selected way', len(seen) == 1 and seen[0][0] == mode)
            r = seen[0][1] if seen else None
            h.check('the picture is that of the text of the graph',
                    r == (shown if mode == 'xdot' else want(shown, layout, 'png')))
        if mode == 'off':
            h.check('nothing is printed', not h.out)
    h.check('the display mode is the one selected', g.attr['display'] == mode)
    h.check('the layout is the one selected', h.call('get_layout', g.get_layout) == layout)
    if not lit:
        h.check('the graph is not changed', h.call('to_string', g.to_string) == text)
    elif mode != 'file':
        h.check('nodes that are not highlighted keep their attributes',
                all(g.get_node_attr(nm(i), 'color') is None for i in range(n) if nm(i) not in lit))
    h.check('nodes and edges are the same', len(g.get_node_list()) == n and len(g.get_edge_list()) == len(arcs))
    h.observe('shown', len(seen) + len(files))


FLAG = {'PIL': ('PIL_INSTALLED',), 'matplotlib': ('MATPLOTLIB_INSTALLED', 'PIL_INSTALLED'), 'xdot': ('XDOT_INSTALLED',)}


def trouble(h, directed, n, arcs, mode, names='str', fixed=0):
    """Graphviz or the library of the back end is missing or fails"""
    import gimpy.graph as G
    arcs = subset(h, [tuple(a) for a in arcs], fixed)
    nm = namer(names)
    g = make(directed, n, arcs, nm, False, labels(h, n, arcs))
    h.call('set_layout', g.set_layout, 'dot')
    h.call('set_display_mode', g.set_display_mode, mode)
    text = h.call('to_string', g.to_string)
    faults = ['ok', 'warns', 'missing', 'fails'] + list(FLAG[mode])
    fault = faults[h.choice('fault', len(faults))]
    flag = fault in FLAG[mode]
    del fakes.SEEN[:]
    if flag:
        old = getattr(G, fault)
        setattr(G, fault, False)
    with Place('ok' if flag else fault) as p:
        try:
            ok, e = h.outcome('display', (Exception,), g.display)
        finally:
            if flag:
                setattr(G, fault, old)
        files, left = p.files(), p.left()
    h.check('no temporary file is left behind', not left)
    h.check('no file is written', not files)
    good = fault in ('ok', 'warns') or (mode == 'xdot' and not flag)
    h.check('a picture is shown exactly if the back end works', len(fakes.SEEN) == (1 if good else 0))
    if flag:
        h.check('a missing library is reported, and switches the display off',
                ok and 'not installed' in h.out and g.attr['display'] == 'off')
    else:
        h.check('a failing Graphviz is reported, and nothing else is', ok if good else not ok or bool(h.out))
        h.check('the display mode is the one selected', g.attr['display'] == mode)
    if fault == 'missing' and mode != 'xdot':
        h.check('a missing Graphviz is reported', 'raphviz' in h.out)
    h.check('the graph is not changed', h.call('to_string', g.to_string) == text)
    h.observe('ok', ok)


def window(h, directed, n, arcs, names='str', fixed=0):
    """the matplotlib window waits for a click, blocks or goes on"""
    arcs = subset(h, [tuple(a) for a in arcs], fixed)
    nm = namer(names)
    g = make(directed, n, arcs, nm, False, labels(h, n, arcs))
    g.set_display_mode('matplotlib')
    wait, block = h.bool('wait'), h.bool('block')
    fakes.ANSWER[0] = h.bool('key') if wait else False
    del fakes.SEEN[:], fakes.LOG[:]
    with Place('ok') as p:
        ok, e = h.outcome('display', (SystemExit,), g.display, pause=block, wait_for_click=wait)
        left = p.left()
    key, fakes.ANSWER[0] = fakes.ANSWER[0], False
    h.check('the window waits, blocks or goes on as asked for', fakes.LOG == (['wait'] if wait else ['block'] if block else ['show']))
    h.check('only a key ends the program', ok == (not key))
    h.check('no temporary file is left behind', not left)
    h.check('one picture is shown', len(fakes.SEEN) == 1)
    h.observe('ok', ok)


def scenarios(tier):
    S = []
    T = tier == 'thorough'
    fam = ('str', 'int', 'mixed', 'neg', 'digit', 'big')
    a4 = [(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)]
    for d in (True, False):
        S.append((write, dict(directed=d, n=3, arcs=all_arcs(3)[:4] if d else all_edges(3), names=fam[d], fixed=2)))
        S.append((write, dict(directed=d, n=4, arcs=a4, names=fam[2 + d], fixed=4, cluster=True,
                              faults=('missing', 'warns', 'fails'))))
        S.append((write, dict(directed=d, n=3, arcs=[(0, 1), (1, 2)], names='accent', cluster=True)))
        S.append((write, dict(directed=d, n=10, arcs=WIDE[:11], names='ten', fixed=11, cluster=True)))
        for k, m in enumerate(MODES):
            S.append((display, dict(directed=d, n=10, arcs=WIDE[:11], names=('ten', 'tens')[k % 2], fixed=11, mode=m, cluster=True)))
            S.append((display, dict(directed=d, n=2, arcs=[(0, 1)], names='accent', mode=m)))
        for k, m in enumerate(FLAG):
            S.append((trouble, dict(directed=d, n=3, arcs=all_arcs(3)[:4] if d else all_edges(3), names=fam[k + 3 * d], mode=m,
                                    fixed=0 if T else 1)))
        S.append((window, dict(directed=d, n=3, arcs=[(0, 1), (1, 2)], names=fam[d])))
        for k, m in enumerate(MODES):
            S.append((display, dict(directed=d, n=3, arcs=all_arcs(3)[:4] if d else all_edges(3), names=fam[k % 6], mode=m,
                                    fixed=0 if T else 1)))
            S.append((display, dict(directed=d, n=3, arcs=[(0, 1), (1, 2)], names=fam[(k + 1) % 6], mode=m, fixed=2, light=True)))
            S.append((display, dict(directed=d, n=4, arcs=a4, names=fam[(k + 2) % 6], mode=m, fixed=0 if T else 4, cluster=True,
                                    faults=('warns', 'missing') if m == 'file' else ('warns',))))
    return S
