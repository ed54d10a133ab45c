"""Symbolic integers (linear expressions over solver variables) and formulas.

A Sym is a Python-level proxy for a mathematical integer: a linear expression
sum(coef*var)+const over solver variables.  Non-linear operations introduce an
auxiliary variable with a definitional constraint.  Comparisons give SymBool,
whose truth value (``__bool__``) is decided by the active Explorer: that is the
point at which execution forks.

Formulas are hash-consed tuples:
  ('le', lin)   lin <= 0          ('eq', lin)   lin == 0
  ('not', f)  ('and', (f,..))  ('or', (f,..))  True / False
with lin = (((var, coef), ...sorted), const).
"""
import sys
import opcode
from math import gcd
from functools import reduce

_BINARY_OP = opcode.opmap['BINARY_OP']
ENGINE = None          # the active Explorer (symbolic mode), else None


class Unsupported(BaseException):
    """The engine cannot represent this operation: inconclusive, never 'ok'."""


class PathAbort(BaseException):
    """this path is abandoned (infeasible assumption, split point)"""


class BudgetExceeded(BaseException):
    """step budget of one path exhausted: the code did not terminate in time"""


class Inconclusive(BaseException):
    """solver answered unknown, or the run is not reproducible"""


class PathEnd(BaseException):
    """the harness ends this path here; its assertions are still decided"""


def _norm_le(terms, k):
    # sum terms + k <= 0 ; leading coef made positive
    if not terms:
        return k <= 0
    g = reduce(gcd, (c for _, c in terms))
    g = abs(g)
    if g > 1:
        terms = tuple((v, c // g) for v, c in terms)
        k = -((-k) // g)          # ceil(k/g):  t <= -k/g  ->  t <= floor(-k/g)
    if terms[0][1] > 0:
        return ('le', (terms, k))
    # t + k <= 0  <=>  not (-t - k + 1 <= 0)
    return ('not', ('le', (tuple((v, -c) for v, c in terms), 1 - k)))


def _norm_eq(terms, k):
    if not terms:
        return k == 0
    g = abs(reduce(gcd, (c for _, c in terms)))
    if g > 1:
        if k % g:
            return False
        terms = tuple((v, c // g) for v, c in terms)
        k //= g
    if terms[0][1] < 0:
        terms = tuple((v, -c) for v, c in terms)
        k = -k
    return ('eq', (terms, k))


def f_not(f):
    if f is True:
        return False
    if f is False:
        return True
    if f[0] == 'not':
        return f[1]
    return ('not', f)


def f_and(fs):
    out = []
    for f in fs:
        if f is True:
            continue
        if f is False:
            return False
        if f[0] == 'and':
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ('and', tuple(dict.fromkeys(out)))


def f_or(fs):
    out = []
    for f in fs:
        if f is False:
            continue
        if f is True:
            return True
        if f[0] == 'or':
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return ('or', tuple(dict.fromkeys(out)))


def lin_eval(lin, m):
    s = lin[1]
    for v, c in lin[0]:
        s += c * m[v]
    return s


def f_eval(f, m):
    if f is True or f is False:
        return f
    op = f[0]
    if op == 'le':
        return lin_eval(f[1], m) <= 0
    if op == 'eq':
        return lin_eval(f[1], m) == 0
    if op == 'not':
        return not f_eval(f[1], m)
    if op == 'and':
        return all(f_eval(x, m) for x in f[1])
    return any(f_eval(x, m) for x in f[1])


def to_formula(c):
    if isinstance(c, SymBool):
        return c.f
    if c is True or c is False:
        return c
    if type(c).__name__ == 'bool_':
        return bool(c)
    raise Unsupported('not a formula: %r' % (c,))


class SymBool(object):
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return ENGINE.branch(self.f)

    def __and__(self, o):
        if isinstance(o, (SymBool, bool)):
            return mk_bool(f_and((self.f, to_formula(o))))
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SymBool, bool)):
            return mk_bool(f_or((self.f, to_formula(o))))
        return NotImplemented
    __ror__ = __or__

    def __invert__(self):
        # python's ~True is -2; only used for numpy-like code, not supported
        raise Unsupported('~ on a symbolic truth value')

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return bool(self) == bool(o)
        if isinstance(o, (int, Sym)):
            return int(bool(self)) == o
        return False

    def __ne__(self, o):
        return not (self == o)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def _num(self):
        return int(bool(self))

    def __add__(self, o):
        return self._num() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __mul__(self, o):
        return self._num() * o
    __rmul__ = __mul__

    def __str__(self):
        return str(bool(self))
    __repr__ = __str__

    @property
    def __class__(self):
        return bool


def mk_bool(f):
    return f if (f is True or f is False) else SymBool(f)



def _merge(a, b, s):
    # a + s*b, both sorted tuples
    if not b:
        return a
    d = dict(a)
    for v, c in b:
        n = d.get(v, 0) + s * c
        if n:
            d[v] = n
        else:
            d.pop(v, None)
    return tuple(sorted(d.items()))


class Sym(object):
    """symbolic integer, immutable"""
    __slots__ = ('t', 'k')

    def __init__(self, t, k):
        self.t = t
        self.k = k

    # ---- constructors / helpers
    @staticmethod
    def of(o):
        if type(o) is Sym:
            return o
        return Sym((), int(o))

    @property
    def lin(self):
        return (self.t, self.k)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    @property
    def __class__(self):
        return int

    # ---- arithmetic
    def __add__(self, o):
        if type(o) is Sym:
            return mk(_merge(self.t, o.t, 1), self.k + o.k)
        if type(o) is int or type(o) is bool:
            return mk(self.t, self.k + o)
        return _other(self, o, '__add__', '__radd__')
    __radd__ = __add__

    def __sub__(self, o):
        if type(o) is Sym:
            return mk(_merge(self.t, o.t, -1), self.k - o.k)
        if type(o) is int or type(o) is bool:
            return mk(self.t, self.k - o)
        return _other(self, o, '__sub__', '__rsub__')

    def __rsub__(self, o):
        return -(self - o)

    def __neg__(self):
        return mk(tuple((v, -c) for v, c in self.t), -self.k)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __mul__(self, o):
        if type(o) is int or type(o) is bool:
            if o == 0:
                return 0
            return mk(tuple((v, c * o) for v, c in self.t), self.k * o)
        if type(o) is Sym:
            return ENGINE.aux('*', self, o)
        if type(o) is float:
            if o.is_integer():
                return self * int(o)
            return Rat(self, 1) * o
        return NotImplemented
    __rmul__ = __mul__

    def __floordiv__(self, o):
        return self._divmod(o)[0]

    def __mod__(self, o):
        return self._divmod(o)[1]

    def __divmod__(self, o):
        return self._divmod(o)

    def _divmod(self, o):
        if type(o) is Sym:
            o = ENGINE.concretize(o)
        if type(o) is not int:
            raise Unsupported('division by %r' % (o,))
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        q = ENGINE.aux('//', self, o)
        return q, self - q * o

    def __rfloordiv__(self, o):
        return o // ENGINE.concretize(self)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return o % ENGINE.concretize(self)

    def __truediv__(self, o):
        return Rat(self, 1) / o

    def __rtruediv__(self, o):
        return o / Rat(self, 1)

    def __pow__(self, o, mod=None):
        if type(o) is int and 0 <= o <= 4 and mod is None:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise Unsupported('power')

    def __rpow__(self, o):
        return o ** ENGINE.concretize(self)

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rshift__(self, o):
        return self // (1 << int(o))

    def __and__(self, o):
        return ENGINE.concretize(self) & o

    def __or__(self, o):
        return ENGINE.concretize(self) | o

    def __xor__(self, o):
        return ENGINE.concretize(self) ^ o
    __rand__ = __and__
    __ror__ = __or__
    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    # ---- comparison
    def _cmp(self, o):
        """terms,const of self-o or None"""
        if type(o) is Sym:
            return _merge(self.t, o.t, -1), self.k - o.k
        if type(o) is int or type(o) is bool:
            return self.t, self.k - o
        return None

    def __eq__(self, o):
        c = self._cmp(o)
        if c is None:
            if type(o) is float:
                if o != o or o in (float('inf'), float('-inf')) or not o.is_integer():
                    return False
                return self == int(o)
            if type(o) is SymBool:
                return self == int(bool(o))
            if type(o) is Rat:
                return NotImplemented
            return False if isinstance(o, (str, tuple, list, dict, type(None))) else NotImplemented
        return mk_bool(_norm_eq(*c))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mk_bool(f_not(to_formula(r)))

    def __le__(self, o):
        c = self._cmp(o)
        if c is None:
            return self._fcmp(o, '<=')
        return mk_bool(_norm_le(*c))

    def __lt__(self, o):
        c = self._cmp(o)
        if c is None:
            return self._fcmp(o, '<')
        return mk_bool(_norm_le(c[0], c[1] + 1))

    def __ge__(self, o):
        c = self._cmp(o)
        if c is None:
            return self._fcmp(o, '>=')
        return mk_bool(f_not(to_formula(mk_bool(_norm_le(c[0], c[1] + 1)))))

    def __gt__(self, o):
        c = self._cmp(o)
        if c is None:
            return self._fcmp(o, '>')
        return mk_bool(f_not(to_formula(mk_bool(_norm_le(*c)))))

    def _fcmp(self, o, op):
        if type(o) is Rat:
            return NotImplemented
        if type(o) is float:
            import math
            if o != o:
                return False
            if math.isinf(o):
                return (o > 0) if op in ('<', '<=') else (o < 0)
            if op in ('<=', '>'):
                fl = math.floor(o)
                return self <= fl if op == '<=' else self > fl
            ce = math.ceil(o)
            return self < ce if op == '<' else self >= ce
        if type(o) is SymBool:
            n = int(bool(o))
            return {'<': self < n, '<=': self <= n, '>': self > n, '>=': self >= n}[op]
        return NotImplemented

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return ENGINE.hash_of(self)

    # ---- conversions
    def __int__(self):
        f = sys._getframe(1)
        co = f.f_code.co_code
        i = f.f_lasti
        if i >= 0 and co[i] == _BINARY_OP and co[i + 1] in (6, 19):
            return int(ENGINE.token(self))        # a "%d" format
        return ENGINE.concretize(self)

    def __index__(self):
        return ENGINE.concretize(self)

    def __float__(self):
        return float(ENGINE.concretize(self))

    def _key(self):
        return self.lin

    def __round__(self, n=None):
        return self

    def __floor__(self):
        return self
    __ceil__ = __floor__
    __trunc__ = __floor__

    def is_integer(self):
        return True

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self

    def conjugate(self):
        return self

    def __str__(self):
        return ENGINE.token(self)

    def __repr__(self):
        return ENGINE.token(self)

    def __format__(self, spec):
        return ENGINE.token(self)


class Rat(object):
    """exact quotient of two (symbolic) integers, the denominator positive:
    stands for the float of a true division, without its rounding"""
    __slots__ = ('n', 'd')

    def __init__(self, n, d):
        self.n = n
        self.d = d

    @staticmethod
    def of(o):
        if type(o) is Rat:
            return o
        if type(o) in (Sym, int, bool):
            return Rat(o, 1)
        if type(o) is float:
            if o != o or o in (float('inf'), float('-inf')):
                return None
            a, b = o.as_integer_ratio()
            return Rat(a, b)
        if type(o).__name__ == 'Fraction':
            return Rat(o.numerator, o.denominator)
        return None

    @staticmethod
    def make(n, d):
        if type(n) is int and type(d) is int:
            g = gcd(n, d)
            return Rat(n // g, d // g)
        if type(n) is Sym and type(d) is int and d != 1:
            g = reduce(gcd, (c for _, c in n.t), gcd(n.k, d))
            if g > 1:
                return Rat(Sym(tuple((v, c // g) for v, c in n.t), n.k // g), d // g)
        return Rat(n, d)

    @property
    def __class__(self):
        return float

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __add__(self, o):
        r = Rat.of(o)
        if r is None:
            return o if type(o) is float else NotImplemented
        if EQ(self.d, r.d) is True:
            return Rat.make(self.n + r.n, self.d)
        return Rat.make(self.n * r.d + r.n * self.d, self.d * r.d)
    __radd__ = __add__

    def __neg__(self):
        return Rat(-self.n, self.d)

    def __pos__(self):
        return self

    def __sub__(self, o):
        r = Rat.of(o)
        if r is None:
            return -o if type(o) is float else NotImplemented
        return self + (-r)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        r = Rat.of(o)
        if r is None:
            return NotImplemented
        return Rat.make(self.n * r.n, self.d * r.d)
    __rmul__ = __mul__

    def __truediv__(self, o):
        r = Rat.of(o)
        if r is None:
            return NotImplemented
        if r.n == 0:
            raise ZeroDivisionError('division by zero')
        if r.n > 0:
            return Rat.make(self.n * r.d, self.d * r.n)
        return Rat.make(-(self.n * r.d), self.d * -r.n)

    def __rtruediv__(self, o):
        r = Rat.of(o)
        if r is None:
            return NotImplemented
        return r / self

    def __pow__(self, k, mod=None):
        if type(k) is int and 0 <= k <= 4 and mod is None:
            r = Rat(1, 1)
            for _ in range(k):
                r = r * self
            return r
        raise Unsupported('power')

    def __abs__(self):
        return self if self.n >= 0 else -self

    def _sides(self, o):
        r = Rat.of(o)
        if r is None:
            return None
        if EQ(self.d, r.d) is True:
            return self.n, r.n
        return self.n * r.d, r.n * self.d

    def __eq__(self, o):
        c = self._sides(o)
        if c is None:
            return False
        return c[0] == c[1]

    def __ne__(self, o):
        r = self == o
        return mk_bool(f_not(to_formula(r)))

    def _rel(self, o, op):
        c = self._sides(o)
        if c is None:
            if type(o) is float and o == o:
                return (o > 0) == (op in ('lt', 'le'))
            return NotImplemented
        return {'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b,
                'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b}[op](*c)

    def __lt__(self, o):
        return self._rel(o, 'lt')

    def __le__(self, o):
        return self._rel(o, 'le')

    def __gt__(self, o):
        return self._rel(o, 'gt')

    def __ge__(self, o):
        return self._rel(o, 'ge')

    def __bool__(self):
        return bool(self.n != 0)

    def _key(self):
        return tuple(x.lin if type(x) is Sym else x for x in (self.n, self.d))

    def __hash__(self):
        return ENGINE.hash_of(self)

    def __float__(self):
        return float(ENGINE.concretize(self.n)) / ENGINE.concretize(self.d)

    def __floor__(self):
        return self.n // self.d

    def __round__(self, n=None):
        raise Unsupported('rounding of a symbolic quotient')

    def is_integer(self):
        return bool(self.n % self.d == 0)

    def __int__(self):
        f = sys._getframe(1)
        co = f.f_code.co_code
        i = f.f_lasti
        if i >= 0 and co[i] == _BINARY_OP and co[i + 1] in (6, 19):
            return int(ENGINE.token(self))        # a "%d" format
        if self.n >= 0:
            return ENGINE.concretize(self.n // self.d)
        return -ENGINE.concretize(-self.n // self.d)

    def __str__(self):
        return ENGINE.token(self)
    __repr__ = __str__

    def __format__(self, spec):
        return ENGINE.token(self)


class Num(str):
    """the text of a symbolic number: a token that compares like the decimal numeral it stands for"""
    __slots__ = ('sym',)

    def __str__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __hash__(self):
        return str.__hash__(self)

    def __eq__(self, o):
        if type(o) is Num:
            return bool(self.sym == o.sym)
        if isinstance(o, str):
            return _numeral(o) is not None and bool(self.sym == _numeral(o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __lt__(self, o):
        return _before(self, o, False)

    def __le__(self, o):
        return _before(self, o, True)

    def __gt__(self, o):
        return not _before(self, o, True)

    def __ge__(self, o):
        return not _before(self, o, False)


def _numeral(t):
    if type(t) is str and t in ENGINE.tokmap:       # a token that went through a text
        return ENGINE.tokmap[t]
    try:
        v = int(t)
    except ValueError:
        return None
    return v if str(v) == t else None


def _digits(a):
    """forks over sign and number of digits: (negative, digits, absolute value)"""
    neg = bool(a < 0)
    if neg:
        a = -a
    for d in range(1, 8):
        if bool(a < 10 ** d):
            return neg, d, a
    raise Unsupported('order of the numerals of numbers with more than 7 digits')


def _before(x, y, eq):
    """does the numeral x stand before (or equal) the numeral y?"""
    if type(y) is not Num:
        v = _numeral(y)
        if v is None:           # not a numeral: decided by the first character
            if y[:1] not in '-0123456789':
                return str.__lt__('5', y)
            raise Unsupported('order of a numeral and %r' % (y,))
        y = v
    else:
        y = y.sym
    x = x.sym
    if type(x) is Rat or type(y) is Rat:
        raise Unsupported('order of the numerals of fractions')
    n, d, a = _digits(x)
    m, e, b = _digits(y)
    if n != m:
        return n                # '-' stands before the digits
    a, b = a * 10 ** max(0, e - d), b * 10 ** max(0, d - e)
    if bool(a == b):
        return d < e or (eq and d == e)
    return bool(a < b)


def _other(s, o, a, ra):
    if type(o) is float:
        if o in (float('inf'), float('-inf')):
            return o if a == '__add__' else -o
        if o.is_integer():
            return getattr(s, a)(int(o))
        return getattr(Rat(s, 1), a)(o)
    if type(o) is SymBool:
        return getattr(s, a)(int(bool(o)))
    return NotImplemented


def mk(t, k):
    return Sym(t, k) if t else k


# ---------------------------------------------------------------- spec helpers
# Work on symbolic and on plain values; never fork.
def AND(*cs):
    cs = cs[0] if len(cs) == 1 and isinstance(cs[0], (list, tuple)) else cs
    return mk_bool(f_and([to_formula(c) for c in cs]))


def OR(*cs):
    cs = cs[0] if len(cs) == 1 and isinstance(cs[0], (list, tuple)) else cs
    return mk_bool(f_or([to_formula(c) for c in cs]))


def NOT(c):
    return mk_bool(f_not(to_formula(c)))


def IMP(a, b):
    return OR(NOT(a), b)


def IFF(a, b):
    return AND(IMP(a, b), IMP(b, a))


def ALLEQ(pairs):
    return AND([EQ(a, b) for a, b in pairs])


def EQ(a, b):
    r = a == b
    if r is True or r is False or type(r) is SymBool:
        return r
    raise Unsupported('EQ')


def SUM(xs):
    s = 0
    for x in xs:
        s = s + x
    return s
