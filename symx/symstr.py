"""Strings of symbolic code points.

A SymStr has a concrete length; each position is a character or a symbolic
integer (its code point).  It is a subclass of str whose underlying text shows
one private-use character per symbolic position, so that C functions (join,
format, %) carry the positions through; text() turns such a result back into a
SymStr.  Everything that looks at a character decides it in the Explorer.
The functions under test get helpers for the operations that would bypass the
methods of the right operand (see Rewrite); regular expressions are matched by
a backtracking matcher over the parse tree of the real pattern.
"""
import ast
import re as real_re
import re._parser as sre_parse
import re._constants as C
import sys
import types
from . import expr
from .expr import Sym, Unsupported, f_and, f_or, f_not, to_formula, mk_bool

BASE = 0xF0000
_realord = ord


def decide(f):
    """one fork for a whole formula"""
    if not isinstance(f, tuple):
        f = to_formula(f)
    if f is True or f is False:
        return f
    return expr.ENGINE.branch(f, whole=True)


def holder(s):
    eng = expr.ENGINE
    d = eng.__dict__.setdefault('holders', {})
    n = d.get(s.lin)
    if n is None:
        n = len(d)
        d[s.lin] = n
        eng.__dict__.setdefault('held', {})[n] = s
    return chr(BASE + n)


def text(s):
    """a str, possibly with private-use characters, as characters again"""
    if type(s) is not str or expr.ENGINE is None or s.isascii():
        return s
    held = expr.ENGINE.__dict__.get('held', {})
    cs = [held.get(_realord(c) - BASE, c) for c in s]
    return make(cs)


def make(cs):
    cs = tuple(chr(c) if type(c) is int else c for c in cs)
    if all(type(c) is str for c in cs):
        return ''.join(cs)
    return SymStr(cs)


def chars(s):
    if type(s) is SymStr:
        return s.cs
    s = text(s)
    return s.cs if type(s) is SymStr else tuple(s)


def cp(c):
    return c if type(c) is Sym else _realord(c)


def same(a, b):
    """formula: two characters are equal"""
    if type(a) is str and type(b) is str:
        return a == b
    return to_formula(cp(a) == cp(b))


def equal(xs, ys):
    if len(xs) != len(ys):
        return False
    return f_and([same(a, b) for a, b in zip(xs, ys)])


def within(c, ranges):
    """formula: the character lies in one of the ranges"""
    c = cp(c)
    return f_or([f_and([to_formula(c >= lo), to_formula(c <= hi)]) if lo != hi else to_formula(c == lo)
                 for lo, hi in ranges])


_tables = {}


def table(pred):
    """the code points with a property of str, as ranges"""
    r = _tables.get(pred)
    if r is None:
        f = getattr(str, pred) if isinstance(pred, str) else pred
        r, lo = [], None
        for i in range(0x110001):
            ok = i < 0x110000 and f(chr(i))
            if ok and lo is None:
                lo = i
            elif not ok and lo is not None:
                r.append((lo, i - 1))
                lo = None
        _tables[pred] = r
    return r


def _word(c):
    return c == '_' or c.isalnum()


class SymStr(str):
    def __new__(cls, cs):
        self = str.__new__(cls, ''.join(holder(c) if type(c) is Sym else c for c in cs))
        self.cs = tuple(cs)
        return self

    def __str__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported('pickle of a symbolic string')

    def __repr__(self):
        raise Unsupported('repr of a symbolic string')

    def __format__(self, spec):
        if spec not in ('', 's'):
            raise Unsupported('format of a symbolic string')
        return str.__str__(self)

    # ---- comparison
    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        return decide(equal(self.cs, chars(o)))

    def __ne__(self, o):
        return not (self == o)

    def __hash__(self):
        # dictionaries with constant keys: decide which of the constants it is
        if len(self.cs) <= 8:
            for k in expr.ENGINE.__dict__.get('strconst', ()):
                if len(k) == len(self.cs) and self == k:
                    return hash(k)
        return str.__hash__(self)

    def _order(self, o):
        a, b = self.cs, chars(o)
        for x, y in zip(a, b):
            if decide(same(x, y)):
                continue
            return -1 if decide(to_formula(cp(x) < cp(y))) else 1
        return len(a) - len(b)

    def __lt__(self, o):
        return self._order(o) < 0

    def __le__(self, o):
        return self._order(o) <= 0

    def __gt__(self, o):
        return self._order(o) > 0

    def __ge__(self, o):
        return self._order(o) >= 0

    # ---- sequence
    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return len(self.cs) > 0

    def __getitem__(self, i):
        if isinstance(i, slice):
            return make(self.cs[i])
        return make((self.cs[i],))

    def __iter__(self):
        for c in self.cs:
            yield make((c,))

    def __add__(self, o):
        if not isinstance(o, str):
            raise TypeError('can only concatenate str')
        return make(self.cs + chars(o))

    def __radd__(self, o):
        return make(chars(o) + self.cs)

    def __mul__(self, n):
        return make(self.cs * n)
    __rmul__ = __mul__

    def __mod__(self, a):
        return text(str.__mod__(str.__str__(self), a))

    def __rmod__(self, o):
        return text(str.__mod__(str.__str__(o), (self,)))

    def __contains__(self, o):
        return self.find(o) >= 0

    def find(self, sub, start=0, end=None):
        sub = chars(sub)
        n = len(self.cs) if end is None else min(end, len(self.cs))
        for i in range(start, n - len(sub) + 1):
            if decide(equal(self.cs[i:i + len(sub)], sub)):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        sub = chars(sub)
        n = len(self.cs) if end is None else min(end, len(self.cs))
        for i in range(n - len(sub), start - 1, -1):
            if decide(equal(self.cs[i:i + len(sub)], sub)):
                return i
        return -1

    def index(self, *a):
        i = self.find(*a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def rindex(self, *a):
        i = self.rfind(*a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def _pieces(self, sep, limit=-1):
        sep = chars(sep)
        if not sep:
            raise Unsupported('empty separator')
        out, cur, i = [], [], 0
        while i < len(self.cs):
            if limit != 0 and i + len(sep) <= len(self.cs) and decide(equal(self.cs[i:i + len(sep)], sep)):
                out.append(tuple(cur))
                cur = []
                i += len(sep)
                limit -= 1
            else:
                cur.append(self.cs[i])
                i += 1
        out.append(tuple(cur))
        return out

    def count(self, sub):
        return len(self._pieces(sub)) - 1

    def replace(self, old, new, count=-1):
        ps = self._pieces(old, count)
        new = chars(new)
        cs = ps[0]
        for p in ps[1:]:
            cs = cs + new + p
        return make(cs)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported('split at white space')
        return [make(p) for p in self._pieces(sep, maxsplit)]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, '', ''
        return self[:i], sep, self[i + len(sep):]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return '', '', self
        return self[:i], sep, self[i + len(sep):]

    def startswith(self, p, start=0, end=None):
        cs = self.cs[start:end]
        for q in (p if isinstance(p, tuple) else (p,)):
            q = chars(q)
            if len(q) <= len(cs) and decide(equal(cs[:len(q)], q)):
                return True
        return False

    def endswith(self, p, start=0, end=None):
        cs = self.cs[start:end]
        for q in (p if isinstance(p, tuple) else (p,)):
            q = chars(q)
            if len(q) <= len(cs) and decide(equal(cs[len(cs) - len(q):], q)):
                return True
        return False

    def _strip(self, what, left, right):
        rs = table('isspace') if what is None else [(_realord(c), _realord(c)) for c in what]
        cs = list(self.cs)
        while left and cs and decide(within(cs[0], rs)):
            cs.pop(0)
        while right and cs and decide(within(cs[-1], rs)):
            cs.pop()
        return make(cs)

    def strip(self, w=None):
        return self._strip(w, True, True)

    def lstrip(self, w=None):
        return self._strip(w, True, False)

    def rstrip(self, w=None):
        return self._strip(w, False, True)

    def join(self, xs):
        cs = ()
        for i, x in enumerate(xs):
            cs = cs + (self.cs if i else ()) + chars(x)
        return make(cs)

    def translate(self, t):
        cs = []
        for c in self.cs:
            for k, v in t.items():
                if decide(to_formula(cp(c) == k)):
                    cs.extend(() if v is None else (chr(v),) if isinstance(v, int) else chars(v))
                    break
            else:
                cs.append(c)
        return make(cs)

    def format(self, *a, **k):
        return text(str.format(str.__str__(self), *a, **k))

    def _all(self, pred):
        return len(self.cs) > 0 and all(decide(within(c, table(pred))) for c in self.cs)

    def isalpha(self):
        return self._all('isalpha')

    def isalnum(self):
        return self._all('isalnum')

    def isdigit(self):
        return self._all('isdigit')

    def isdecimal(self):
        return self._all('isdecimal')

    def isnumeric(self):
        return self._all('isnumeric')

    def isspace(self):
        return self._all('isspace')

    def isprintable(self):
        return all(decide(within(c, table('isprintable'))) for c in self.cs)

    def isascii(self):
        return all(decide(to_formula(cp(c) < 128)) for c in self.cs)

    def isidentifier(self):
        if not self.cs or not decide(within(self.cs[0], table('isidentifier'))):
            return False
        return all(decide(within(c, table(_ident))) for c in self.cs[1:])


def _ident(c):
    return ('a' + c).isidentifier()


def _refuse(name):
    def f(self, *a, **k):
        raise Unsupported('str.%s of a symbolic string' % name)
    return f


for _n in dir(str):
    if _n not in vars(SymStr) and not _n.startswith('__'):
        setattr(SymStr, _n, _refuse(_n))


# ---------------------------------------------------------------- regular expressions
class Match(object):
    def __init__(self, pat, s, cs, start, end, groups):
        self.re, self.string, self.cs, self._span, self._g = pat, s, cs, (start, end), groups

    def _n(self, g):
        return self.re.groupindex.get(g, g) if isinstance(g, str) else g

    def span(self, g=0):
        g = self._n(g)
        return self._span if g == 0 else self._g.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def group(self, *gs):
        r = []
        for g in gs or (0,):
            a, b = self.span(g)
            r.append(None if a < 0 else make(self.cs[a:b]))
        return r[0] if len(r) == 1 else tuple(r)
    __getitem__ = group

    def groups(self, default=None):
        return tuple(default if self.span(g)[0] < 0 else self.group(g) for g in range(1, self.re.groups + 1))

    @property
    def lastindex(self):
        return max(self._g) if self._g else None


def _category(c, neg=False):
    name = str(c)
    t = {'CATEGORY_DIGIT': 'isdecimal', 'CATEGORY_SPACE': 'isspace', 'CATEGORY_WORD': _word}
    if name in t:
        return t[name], False
    if name.replace('_NOT_', '_') in t:
        return t[name.replace('_NOT_', '_')], True
    raise Unsupported('category ' + name)


def _set(items, c):
    neg, fs = False, []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            fs.append(within(c, [(av, av)]))
        elif op is C.RANGE:
            fs.append(within(c, [av]))
        elif op is C.CATEGORY:
            p, n = _category(av)
            f = within(c, table(p))
            fs.append(f_not(f) if n else f)
        else:
            raise Unsupported('set ' + str(op))
    f = f_or(fs)
    return f_not(f) if neg else f


class Pattern(object):
    def __init__(self, p):
        self.p = p
        self.pattern, self.flags, self.groups, self.groupindex = p.pattern, p.flags, p.groups, dict(p.groupindex)
        if p.flags & (real_re.I | real_re.M | real_re.A | real_re.L):
            self.tree = None
        else:
            self.tree = list(sre_parse.parse(p.pattern, p.flags))

    def _m(self, ops, k, cs, i, g, cont):
        """match ops[k:] at i; cont(i, g) -> (end, groups) or None"""
        if k == len(ops):
            return cont(i, g)
        op, av = ops[k]

        def rest(j, h):
            return self._m(ops, k + 1, cs, j, h, cont)
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if i >= len(cs):
                return None
            c = cs[i]
            if op is C.LITERAL:
                f = within(c, [(av, av)])
            elif op is C.NOT_LITERAL:
                f = f_not(within(c, [(av, av)]))
            elif op is C.ANY:
                f = True if self.flags & real_re.S else f_not(within(c, [(10, 10)]))
            else:
                f = _set(av, c)
            return rest(i + 1, g) if decide(f) else None
        if op is C.AT:
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                ok = i == 0
            elif av is C.AT_END_STRING:
                ok = i == len(cs)
            elif av is C.AT_END:
                ok = i == len(cs) or (i == len(cs) - 1 and decide(within(cs[i], [(10, 10)])))
            elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                w = [0 <= j < len(cs) and decide(within(cs[j], table(_word))) for j in (i - 1, i)]
                ok = (w[0] != w[1]) == (av is C.AT_BOUNDARY)
            else:
                raise Unsupported('anchor ' + str(av))
            return rest(i, g) if ok else None
        if op is C.SUBPATTERN:
            group, on, off, sub = av
            if on or off:
                raise Unsupported('inline flags')

            def done(j, h):
                if group is not None:
                    h = dict(h)
                    h[group] = (i, j)
                return rest(j, h)
            return self._m(list(sub), 0, cs, i, g, done)
        if op is C.BRANCH:
            for alt in av[1]:
                r = self._m(list(alt), 0, cs, i, g, rest)
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)

            def times(n, j, h, last):
                def more():
                    if (hi is not C.MAXREPEAT and n >= hi) or (n >= lo and last == j):
                        return None
                    return self._m(sub, 0, cs, j, h, lambda a, b: times(n + 1, a, b, j))
                if n < lo:
                    return more()
                if op is C.MAX_REPEAT:
                    r = more()
                    return r if r is not None else rest(j, h)
                r = rest(j, h)
                return r if r is not None else more()
            return times(0, i, g, None)
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, sub = av
            if d < 0:
                w = sub.getwidth()
                if w[0] != w[1]:
                    raise Unsupported('look behind')
                at = i - w[0]
            else:
                at = i
            r = self._m(list(sub), 0, cs, at, g, lambda a, b: (a, b)) if at >= 0 else None
            return rest(i, g) if (r is not None) == (op is C.ASSERT) else None
        raise Unsupported('regular expression ' + str(op))

    def _at(self, s, cs, i, full=False):
        if self.tree is None:
            raise Unsupported('regular expression flags')
        r = self._m(self.tree, 0, cs, i, {}, lambda j, g: (j, g) if not full or j == len(cs) else None)
        return None if r is None else Match(self, s, cs, i, r[0], r[1])

    def _sym(self, s):
        t = text(s) if type(s) is str else s
        return t if type(t) is SymStr else None

    def match(self, s, *a):
        t = self._sym(s)
        if t is None:
            return self.p.match(s, *a)
        return self._at(t, t.cs, *(a or (0,)))

    def fullmatch(self, s):
        t = self._sym(s)
        return self.p.fullmatch(s) if t is None else self._at(t, t.cs, 0, True)

    def search(self, s):
        t = self._sym(s)
        if t is None:
            return self.p.search(s)
        for m in self._iter(t):
            return m

    def _iter(self, t):
        i = 0
        while i <= len(t.cs):
            m = self._at(t, t.cs, i)
            if m is None:
                i += 1
            else:
                yield m
                if m.end() == m.start():
                    i = m.end() + 1
                else:
                    i = m.end()

    def finditer(self, s):
        t = self._sym(s)
        return self.p.finditer(s) if t is None else self._iter(t)

    def findall(self, s):
        t = self._sym(s)
        if t is None:
            return self.p.findall(s)
        return [m.group() if not self.groups else m.group(1) if self.groups == 1 else m.groups('')
                for m in self._iter(t)]

    def sub(self, repl, s, count=0):
        t = self._sym(s)
        if t is None:
            return self.p.sub(repl, s, count)
        cs, last, n = (), 0, 0
        for m in self._iter(t):
            if count and n >= count:
                break
            n += 1
            cs = cs + t.cs[last:m.start()]
            if callable(repl):
                cs = cs + chars(repl(m))
            else:
                for part in sre_parse.parse_template(repl, self.p):
                    cs = cs + (tuple(part) if isinstance(part, str) else chars(m.group(part)))
            last = m.end()
        return make(cs + t.cs[last:])

    def split(self, s):
        t = self._sym(s)
        if t is None:
            return self.p.split(s)
        raise Unsupported('re.split')


class Re(types.ModuleType):
    """the re module for symbolic strings"""

    def __init__(self):
        types.ModuleType.__init__(self, 're')

    def __getattr__(self, n):
        return getattr(real_re, n)

    @staticmethod
    def compile(p, flags=0):
        return p if isinstance(p, Pattern) else Pattern(real_re.compile(p, flags))


def _fn(n):
    def f(p, *a, **k):
        flags = k.pop('flags', 0)
        nargs = 2 if n == 'sub' else 1
        if len(a) > nargs and n != 'sub':
            flags, a = a[nargs], a[:nargs]
        return getattr(Re.compile(p, flags), n)(*a, **k)
    return f


for _n in ('match', 'fullmatch', 'search', 'sub', 'findall', 'finditer', 'split'):
    setattr(Re, _n, staticmethod(_fn(_n)))


# ---------------------------------------------------------------- helpers in the code under test
def _has(x):
    if type(x) is SymStr:
        return True
    return type(x) is str and not x.isascii() and type(text(x)) is SymStr


def sx_in(x, box):
    if expr.ENGINE is None:
        return x in box
    x = text(x)
    if isinstance(box, str) and isinstance(x, str):
        if _has(x) or _has(box):
            return SymStr.find(_wrap(box), x) >= 0
    elif type(x) is SymStr and isinstance(box, (dict, set, frozenset, list, tuple)):
        return any(x == y for y in list(box))
    return x in box


def _wrap(s):
    return s if type(s) is SymStr else SymStr(chars(s))


def sx_m(obj, name, *a, **k):
    if expr.ENGINE is None:
        return getattr(obj, name)(*a, **k)
    if type(obj) is str and getattr(str, name, None) is not None:
        if name == 'join':
            a = ([x for x in a[0]],)
            sym = any(_has(x) for x in a[0]) or _has(obj)
        else:
            sym = _has(obj) or any(_has(x) for x in a) or any(_has(x) for x in k.values())
        if sym:
            return getattr(_wrap(obj), name)(*a, **k)
    elif name == 'get' and type(obj) is dict and a and _has(a[0]):
        for y in list(obj):
            if a[0] == y:
                return obj[y]
        return a[1] if len(a) > 1 else None
    return getattr(obj, name)(*a, **k)


def sx_t(s):
    return text(s)


def sx_ord(c):
    if expr.ENGINE is not None:
        c = text(c)
        if type(c) is SymStr:
            if len(c.cs) != 1:
                raise TypeError('ord() expected a character')
            return cp(c.cs[0])
    return _realord(c)


def sx_chr(i):
    return make((i,)) if type(i) is Sym else chr(i)


class Rewrite(ast.NodeTransformer):
    """x in y, calls of methods, f-strings and % through the helpers; nothing else changes"""

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(ast.Name('_sx_in', ast.Load()), [n.left, n.comparators[0]], [])
            return c if isinstance(n.ops[0], ast.In) else ast.UnaryOp(ast.Not(), c)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute):
            return ast.Call(ast.Name('_sx_m', ast.Load()), [n.func.value, ast.Constant(n.func.attr)] + n.args, n.keywords)
        return n

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name('_sx_t', ast.Load()), [n], [])

    def visit_FormattedValue(self, n):
        self.generic_visit(n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.Call(ast.Name('_sx_t', ast.Load()), [n], [])
        return n


def _codes(code, acc):
    for c in code.co_consts:
        if type(c) is type(code):
            acc[(c.co_qualname, c.co_firstlineno)] = c
            _codes(c, acc)
    return acc


def _consts(code, acc):
    for c in code.co_consts:
        if type(c) is str:
            acc.add(c)
        elif isinstance(c, (tuple, frozenset)):
            acc.update(x for x in c if type(x) is str)
        elif type(c) is type(code):
            _consts(c, acc)
    return acc


_installed = {}


def install(mods, on_code=None):
    """prepare modules for symbolic strings; returns the string constants"""
    if _installed:
        return _installed['consts']
    consts = set()
    for m in mods:
        with open(m.__file__) as f:
            tree = ast.parse(f.read(), m.__file__)
        _consts(compile(tree, m.__file__, 'exec'), consts)
        tree = ast.fix_missing_locations(Rewrite().visit(tree))
        codes = _codes(compile(tree, m.__file__, 'exec', dont_inherit=True), {})

        def swap(fn):
            fn = getattr(fn, '__func__', fn)
            if isinstance(fn, types.FunctionType):
                c = codes.get((fn.__code__.co_qualname, fn.__code__.co_firstlineno))
                if c is None or c.co_freevars != fn.__code__.co_freevars:
                    return
                fn.__code__ = c
                if on_code:
                    on_code(c)
        for name, o in list(vars(m).items()):
            if isinstance(o, real_re.Pattern):
                setattr(m, name, Pattern(o))
            elif o is real_re:
                setattr(m, name, Re())
            elif isinstance(o, type) and o.__module__ == m.__name__:
                for x in list(vars(o).values()):
                    swap(x)
            elif getattr(o, '__module__', None) == m.__name__:
                swap(o)
        m._sx_in, m._sx_m, m._sx_t = sx_in, sx_m, sx_t
        m.ord, m.chr = sx_ord, sx_chr
        for n in ('re', 'search', 'match', 'sub', 'fullmatch'):
            if getattr(m, n, None) is getattr(real_re, n, m):
                setattr(m, n, getattr(Re, n))
    _installed['consts'] = frozenset(c for c in consts if 1 <= len(c) <= 8)
    return _installed['consts']
