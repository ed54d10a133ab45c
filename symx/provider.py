"""The interface a harness is written against.  The same harness runs
symbolically (SymH) and on plain values (ConcH: replays, path validation)."""
import io
import sys
from . import expr
from .expr import Sym, to_formula
from .expr import PathAbort, PathEnd, BudgetExceeded, Inconclusive

GUARD = (PathAbort, PathEnd, Inconclusive, expr.Unsupported)


class _Base(object):
    def bool(self, name):
        return bool(self.int(name, 0, 1) == 1)

    def num(self, name, lo=None, hi=None, den=1):
        """a multiple of 1/den (a power of two: floats hold them exactly)"""
        if den == 1:
            return self.int(name, lo, hi)
        lo = -10 ** 6 if lo is None else lo
        hi = 10 ** 6 if hi is None else hi
        return self.int(name, lo * den, hi * den) / den

    def fail(self, label, why=''):
        self.check(label + ((': ' + why) if why else ''), False)
        raise PathEnd()

    def quiet(self, fn, /, *a, **k):
        """run code of the repository with its standard output captured"""
        old = sys.stdout
        sys.stdout = cap = io.StringIO()
        try:
            return fn(*a, **k)
        finally:
            sys.stdout = old
            self.out = cap.getvalue()

    def call(self, label, fn, /, *a, **k):
        """a call that must return normally"""
        try:
            return self.quiet(fn, *a, **k)
        except GUARD:
            raise
        except BudgetExceeded:
            self.fail(label + ' does not terminate within the step budget')
        except RecursionError:
            self.fail(label + ' raises RecursionError')
        except SystemExit:
            self.fail(label + ' calls sys.exit')
        except Exception as e:
            self.fail(label + ' raises ' + type(e).__name__)

    def raises(self, label, excs, fn, /, *a, **k):
        """a call that must raise one of excs"""
        try:
            self.quiet(fn, *a, **k)
        except GUARD:
            raise
        except BudgetExceeded:
            self.fail(label + ' does not terminate within the step budget')
        except excs:
            self.check(label, True)
            return
        except (Exception, SystemExit) as e:
            self.fail(label, 'raised ' + type(e).__name__)
        self.fail(label, 'did not raise')

    def outcome(self, label, excs, fn, /, *a, **k):
        """(True, value) or (False, exception)"""
        try:
            return True, self.quiet(fn, *a, **k)
        except GUARD:
            raise
        except BudgetExceeded:
            self.fail(label + ' does not terminate within the step budget')
        except excs as e:
            return False, e
        except (Exception, SystemExit) as e:
            self.fail(label + ' raises ' + type(e).__name__)


class SymH(_Base):
    symbolic = True

    def __init__(self, ex):
        self.ex = ex

    def int(self, name, lo=None, hi=None):
        return self.ex.new_int(name, lo, hi)

    def choice(self, name, n):
        return self.ex.concretize(self.ex.new_int(name, 0, n - 1))

    def text(self, name, n):
        """a string of n symbolic characters (every code point but 0 and the surrogates)"""
        from . import symstr
        strings(self.ex)
        cs = []
        for i in range(n):
            c = self.ex.new_int('%s.%d' % (name, i), 1, 0x10ffff)
            self.ex.assume(expr.OR(c < 0xd800, c > 0xdfff))
            cs.append(c)
        return symstr.make(cs)

    def chars(self, s):
        """code points of a string"""
        from . import symstr
        return [symstr.cp(c) for c in symstr.chars(s)]

    def assume(self, c):
        self.ex.assume(c)

    def check(self, label, c):
        self.ex.check(label, c)

    def observe(self, name, v):
        self.ex.obs.append((name, v))


class ConcH(_Base):
    symbolic = False

    def __init__(self, values):
        self.values = values
        self.failed = []
        self.nchecks = 0
        self.obs = []

    def int(self, name, lo=None, hi=None):
        v = self.values.get(name, 0)
        if lo is not None and v < lo:
            v = lo
        if hi is not None and v > hi:
            v = hi
        # a fresh object, so that identity of equal integers is not implied
        return int(str(v))

    def choice(self, name, n):
        return self.int(name, 0, n - 1)

    def text(self, name, n):
        cs = [self.int('%s.%d' % (name, i), 1, 0x10ffff) for i in range(n)]
        return ''.join(chr(c) if not 0xd800 <= c <= 0xdfff else 'A' for c in cs)

    def chars(self, s):
        return [ord(c) for c in s]

    def assume(self, c):
        if not c:
            raise PathAbort()

    def check(self, label, c):
        self.nchecks += 1
        if not c:
            self.failed.append(label)

    def observe(self, name, v):
        self.obs.append((name, v))


def run_concrete(fn, cfg, values):
    h = ConcH(values)
    prev = expr.ENGINE
    expr.ENGINE = None
    try:
        fn(h, **cfg)
        h.status = 'done'
    except PathEnd:
        h.status = 'done'
    except PathAbort:
        h.status = 'infeasible'
    finally:
        expr.ENGINE = prev
    return h


def strings(ex):
    """prepare the modules that write DOT text for symbolic strings"""
    from . import symstr, worker
    import gimpy.graph
    import gimpy.global_constants
    ex.strconst = symstr.install([gimpy.global_constants, gimpy.graph], worker.watch)


def plain(v, model):
    """a value observed on a symbolic path, under a model"""
    if type(v).__name__ == 'SymStr':
        return ''.join(chr(plain(c, model)) if type(c) is Sym else c for c in v.cs)
    if type(v) is str:
        from . import symstr
        w = symstr.text(v)
        return v if type(w) is str else plain(w, model)
    if type(v) is expr.Num:
        return str(plain(v.sym, model))
    if type(v) is Sym:
        return expr.lin_eval(v.lin, model)
    if type(v) is expr.SymBool:
        return expr.f_eval(v.f, model)
    if type(v) is expr.Rat:
        return plain(v.n, model) / plain(v.d, model)
    if isinstance(v, dict):
        return {plain(a, model): plain(b, model) for a, b in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(a, model) for a in v]
    if isinstance(v, (set, frozenset)):
        return sorted((plain(a, model) for a in v), key=repr)
    return v
