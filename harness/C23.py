"""C23  Expression trees: value and printed expression."""
import operator
from .common import *

BOUNDS = {
    'quick': 'every operator assignment of + - * / for all tree shapes with up to 4 operators (and two shapes with 4 '
             'and 5 operators), unbounded symbolic integer operands, given as labels (numbers or text) or as node names '
             '(multiples of 1/4 up to 10**6 for up to 3 operators), the whole tree or a part of it; '
             '16 operator strings on trees of 7-9 operators',
    'thorough': 'every operator assignment of all shapes with up to 5 operators, shapes with 5 and 6 operators'}
OUTSIDE = 'division is the exact quotient here, the rounding of floats is not modelled (replays and path validation use '\
          'real floats in the same order of operations); trees with an operator that lacks a child'

OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv}


def shapes(k):
    """binary tree shapes with k inner nodes: None or (left, right)"""
    if k == 0:
        return [None]
    return [(a, b) for i in range(k) for a in shapes(i) for b in shapes(k - 1 - i)]


def parse(h, toks, num):
    """value of a fully parenthesised expression; None on a syntax error"""
    pos = [0]

    def expr():
        if pos[0] >= len(toks):
            raise SyntaxError
        t = toks[pos[0]]
        pos[0] += 1
        if t != '(':
            return num(t)
        a = expr()
        op = toks[pos[0]]
        pos[0] += 1
        b = expr()
        if toks[pos[0]] != ')' or op not in OPS:
            raise SyntaxError
        pos[0] += 1
        return OPS[op](a, b)
    try:
        v = expr()
        if pos[0] != len(toks):
            return None
    except (SyntaxError, IndexError, ValueError):
        return None
    return [v]


def expression(h, shape, ops=None, leaves='label', inner='label', den=1, sub=False):
    """ops: fixed operators in preorder (default: symbolically chosen)"""
    G = gp()
    g = G.BinaryTree(display='off')
    cnt = [0, 0, 0]
    known = {}

    def make(sh, parent, side):
        cnt[2] += 1
        i = cnt[2]
        if sh is None:
            v = h.num('x%d' % cnt[1], den=den)
            known[str(v)] = v
            cnt[1] += 1
            if leaves == 'name':
                # an operand given by the node name alone: names must differ
                for w in named:
                    h.assume(v != w)
                named.append(v)
                name, attrs = v, {}
            elif leaves == 'strname':
                for w in named:
                    h.assume(v != w)
                named.append(v)
                name, attrs = str(v), {}
            else:
                name = i if inner == 'int' else 'leaf%d' % i
                attrs = dict(label=str(v) if leaves == 'text' else v)
            value = lambda: v
            tree = v
        else:
            k = cnt[0]
            cnt[0] += 1
            op = ops[k] if ops else '+-*/'[h.choice('op%d' % k, 4)]
            if inner == 'name':
                name, attrs = op, {}
            else:
                name, attrs = (i if inner == 'int' else 'op%d' % i), dict(label=op)
        if parent is None:
            h.call('add_root', g.add_root, name, **attrs)
        else:
            h.call('add child', g.add_right_child if side else g.add_left_child, name, parent, **attrs)
        if sh is not None:
            a = make(sh[0], name, 0)
            b = make(sh[1], name, 1)
            value = lambda: OPS[op](a(), b())
        made.append((name, value))
        return value
    named = []
    made = []
    value = make(shape, None, 0)
    args = {}
    if sub:
        # a part of the tree, given by the name of its root or by the node
        name, value = made[h.choice('part', len(made))]
        args = dict(root=g.get_node(name) if h.bool('node') else name)
    try:
        want = [value()]
    except ZeroDivisionError:
        want = None
    ok, got = h.outcome('postordereval', (ZeroDivisionError,), g.postordereval, **args)
    h.check('postordereval has a value exactly if the expression has one', ok == (want is not None))
    if ok and want is not None:
        h.check('postordereval returns a number', got is not None and not isinstance(got, str))
        h.check('postordereval returns the value of the expression', EQ(got, want[0]))
    h.call('printexp', g.printexp, **args)

    def num(t):
        if t in known:
            return known[t]
        raise SyntaxError
    try:
        back = parse(h, h.out.split(), num)
        h.check('printexp prints one complete infix expression', back is not None)
    except ZeroDivisionError:
        back = None
        h.check('the printed expression has no value only if the tree has none', want is None)
    if back is not None:
        h.check('the printed expression has a value exactly if the tree has one', want is not None)
        if want is not None:
            h.check('the printed expression has the value of the tree', EQ(back[0], want[0]))
    h.observe('defined', want is not None)
    h.observe('form', [t if t in '()+-*/' else 'n' for t in h.out.split()])


def fixed(k, seed):
    return ''.join('+-*/'[(seed * 7 + 3 * i + i * i) % 4] for i in range(k))


def scenarios(tier):
    S = []
    T = tier == 'thorough'

    def add(**k):
        S.append((expression, k))
    for k in (0, 1, 2, 3, 4) + ((5,) if T else ()):
        for i, sh in enumerate(shapes(k)):
            add(shape=sh, leaves=('label', 'text')[i % 2], inner=('label', 'int')[(i // 2) % 2])
    # operands that are not whole numbers, parts of a tree
    for k, sh in enumerate(shapes(0) + shapes(1) + shapes(2) + shapes(3)[:4 if T else 2]):
        for leaves in ('label', 'text'):
            add(shape=sh, leaves=leaves, inner=('label', 'int')[k % 2], den=4)
    for k, sh in enumerate(shapes(2) + shapes(3)):
        add(shape=sh, leaves=('label', 'text', 'name', 'strname')[k % 4], inner='label' if k % 4 > 1 else ('int', 'label')[k // 4 % 2], sub=True,
            ops=fixed(3, k), den=4 if k % 4 < 2 else 1)
    for leaves in ('name', 'strname'):
        for sh in shapes(2):
            add(shape=sh, leaves=leaves, inner='label')
        add(shape=(None, None), leaves=leaves, inner='name')
    add(shape=((None, None), (None, None)), ops='*+-', leaves='name', inner='name')
    add(shape=((None, (None, None)), None), ops='-*/', leaves='strname', inner='name')
    for k, sh in ((4, shapes(4)[5]), (5, shapes(5)[20])) + (((6, shapes(6)[60]), (6, shapes(6)[77])) if T else ()):
        for seed in range(4):
            add(shape=sh, ops=fixed(k, seed))
    # larger trees: both chains, a comb and a balanced tree, with numbered nodes of two digits
    def chain(k, side):
        t = None
        for i in range(k):
            t = (t, None) if (side if side < 2 else i % 2) else (None, t)
        return t

    def full(d):
        return None if d == 0 else (full(d - 1), full(d - 1))
    for k, sh in enumerate((chain(9, 0), chain(9, 1), chain(9, 2), full(3))):
        for ops in ('+-' * 5, '-' * 10, '++*--+-*+-', '---+/-+---'):
            add(shape=sh, ops=ops, leaves=('label', 'text')[k % 2], inner=('int', 'label')[k // 2])
    othernames(S)
    return S
