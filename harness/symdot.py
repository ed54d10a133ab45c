"""The DOT lexer over code points that may be symbolic, and the meaning of a
quoted text.  Every question about a character is decided by the solver."""
from symx import expr
from symx.expr import AND, OR, EQ
from .dot import Bad, parse

KEYWORDS = ('node', 'edge', 'graph', 'digraph', 'subgraph', 'strict')
NL, CR, SP, QT, BS = 10, 13, 32, 34, 92


def yes(f):
    """decide a formula (one fork)"""
    if type(f) is expr.SymBool:
        return expr.ENGINE.branch(f.f, whole=True)
    return bool(f)


def one_of(c, cs):
    return yes(OR([EQ(c, x) for x in cs]))


def rng(c, *rs):
    return OR([AND(c >= a, c <= b) for a, b in rs])


def is_alpha(c):
    return yes(rng(c, (65, 90), (95, 95), (97, 122), (128, 0x10ffff)))


def is_idchar(c):
    return yes(rng(c, (48, 57), (65, 90), (95, 95), (97, 122), (128, 0x10ffff)))


def is_digit(c):
    return yes(rng(c, (48, 57)))


def keyword(cs):
    """formula: the characters spell a keyword, in any case"""
    return OR([False] + [AND([True] + [OR(EQ(c, ord(k)), EQ(c, ord(k.upper()))) for c, k in zip(cs, w)])
                         for w in KEYWORDS if len(w) == len(cs)])


class Txt(object):
    """an identifier with symbolic characters"""

    def __init__(self, cs):
        self.cs = cs

    def __eq__(self, o):
        if isinstance(o, str):
            o = [ord(c) for c in o]
        elif isinstance(o, Txt):
            o = o.cs
        else:
            return False
        return len(o) == len(self.cs) and yes(AND([True] + [EQ(a, b) for a, b in zip(self.cs, o)]))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 7


def value(cs):
    return ''.join(map(chr, cs)) if all(type(c) is int for c in cs) else Txt(cs)


def points(v):
    return [ord(c) for c in v] if isinstance(v, str) else v.cs


def tokens(cs):
    out, i, n = [], 0, len(cs)
    while i < n:
        c = cs[i]
        if one_of(c, (32, 9, 10, 13)):
            i += 1
            continue
        if one_of(c, [ord(x) for x in '{}[];,=:']):
            out.append(('p', next(x for x in '{}[];,=:' if yes(EQ(c, ord(x))))))
            i += 1
            continue
        if yes(EQ(c, 45)) and i + 1 < n and one_of(cs[i + 1], (45, 62)):
            out.append(('p', '--' if yes(EQ(cs[i + 1], 45)) else '->'))
            i += 2
            continue
        if is_alpha(c):
            j = i
            while j < n and is_idchar(cs[j]):
                j += 1
            w = cs[i:j]
            if yes(keyword(w)):
                k = next(k for k in KEYWORDS if len(k) == len(w) and yes(OR(EQ(w[0], ord(k[0])), EQ(w[0], ord(k[0].upper())))))
                out.append(('k', k))
            else:
                out.append(('id', value(w)))
            i = j
            continue
        if yes(EQ(c, QT)):
            w, i = [], i + 1
            while True:
                if i >= n:
                    raise Bad('string without end')
                c = cs[i]
                if yes(EQ(c, QT)):
                    break
                if yes(EQ(c, BS)):
                    if i + 1 >= n:
                        raise Bad('string without end')
                    d = cs[i + 1]
                    if yes(EQ(d, QT)):
                        w.append(QT)
                    elif not yes(EQ(d, NL)):
                        w.extend((BS, d))
                    i += 2
                    continue
                w.append(c)
                i += 1
            i += 1
            out.append(('id', value(w)))
            continue
        # numeral
        j = i + 1 if yes(EQ(c, 45)) else i
        k = j
        while k < n and is_digit(cs[k]):
            k += 1
        if k < n and yes(EQ(cs[k], 46)):
            d = k + 1
            while d < n and is_digit(cs[d]):
                d += 1
            if k == j and d == k + 1:
                raise Bad('bad character')
            k = d
        if k == j:
            raise Bad('bad character')
        if k < n and (is_idchar(cs[k]) or yes(EQ(cs[k], QT))):
            raise Bad('text follows a number')
        out.append(('id', value(cs[i:k])))
        i = k
    return out


def canon(cs):
    """meaning of a text: an escape sequence is a pair; a backslash that does
    not start one, and a line break, are shown by their escape sequences"""
    out, i = [], 0
    while i < len(cs):
        c = cs[i]
        if yes(EQ(c, BS)):
            if i + 1 < len(cs) and not one_of(cs[i + 1], (QT, SP, NL, CR)):
                out.extend((BS, cs[i + 1]))
                i += 2
                continue
            out.extend((BS, BS))
        elif yes(EQ(c, NL)):
            out.extend((BS, ord('n')))
        elif yes(EQ(c, CR)):
            out.extend((BS, ord('r')))
        else:
            out.append(c)
        i += 1
    return out


def same(v, cs):
    """formula: the identifier v means the text cs"""
    a, b = canon(points(v)), canon(cs)
    return AND([True] + [EQ(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False


def plain_text(h, s, ports):
    """the strings the library does not reserve: no <...>, no quotes supplied
    by the user, no keyword, no port"""
    cs = h.chars(s)
    if len(cs) > 1:
        h.assume(expr.NOT(AND(EQ(cs[0], 60), EQ(cs[-1], 62))))
        h.assume(expr.NOT(AND(EQ(cs[0], QT), EQ(cs[-1], QT))))
    h.assume(expr.NOT(keyword(cs)))
    if ports:
        h.assume(AND([True] + [expr.NOT(EQ(c, 58)) for c in cs]))
    return cs
