"""Import the real gimpy from the current working tree of /repo."""
import os
import sys

REPO = os.environ.get('GIMPY_REPO', '/repo')
SITE = '/opt/venv/lib/python3.12/site-packages'
BLOCK = ('dot2tex', 'pygame', 'coinor.pulp', 'lxml', 'ETree')


def load(block=True):
    sys.dont_write_bytecode = True
    src = os.path.join(REPO, 'src')
    for p in (src, SITE):
        if p not in sys.path:
            sys.path.append(p) if p == SITE else sys.path.insert(0, p)
    if block:
        for m in BLOCK:
            sys.modules[m] = None
        from . import fakes
        if 'gimpy' not in sys.modules:
            fakes.install()
    out = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    try:
        import gimpy
        import gimpy.graph
        import gimpy.tree
        import gimpy.global_constants
        import coinor.blimpy
    finally:
        sys.stdout.close()
        sys.stdout = out
    if not gimpy.__file__.startswith(src):
        raise SystemExit('gimpy imported from %s, not from %s' % (gimpy.__file__, src))
    return gimpy


def modules():
    """the modules whose code is executed symbolically"""
    load()
    mods = [m for n, m in sorted(sys.modules.items())
            if m is not None and (n == 'gimpy' or n.startswith('gimpy.') or
                                  n.startswith('coinor.blimpy'))
            and not n.startswith('gimpy.examples')]
    return mods


def install_shadows():
    """In the namespaces of the code under test, 'int' keeps a symbolic integer
    symbolic; everything else is the interpreter's own."""
    from . import expr

    class _M(type(int)):
        def __instancecheck__(cls, o):
            return isinstance(o, int)

        def __subclasscheck__(cls, o):
            return issubclass(o, int)

        def __call__(cls, *a, **k):
            if len(a) == 1 and not k:
                x = a[0]
                if type(x) is expr.Sym:
                    return x
                if type(x) is expr.Rat:
                    return x.n // x.d if x.n >= 0 else -((-x.n) // x.d)
                if isinstance(x, str) and expr.ENGINE is not None:
                    s = expr.ENGINE.tokmap.get(str.strip(x) + "")
                    if type(s) is expr.Rat:     # the text of a float
                        raise ValueError('invalid literal for int() with base 10')
                    if s is not None:
                        return s
            return int(*a, **k)

        def __eq__(cls, o):
            return o is int or o is cls

        def __hash__(cls):
            return hash(int)

    class symint(int, metaclass=_M):
        pass

    class _F(type(float)):
        def __instancecheck__(cls, o):
            return isinstance(o, float) or type(o) is expr.Rat

        def __subclasscheck__(cls, o):
            return issubclass(o, float)

        def __call__(cls, *a, **k):
            if len(a) == 1 and not k:
                x = a[0]
                if type(x) in (expr.Sym, expr.Rat):
                    return x
                if isinstance(x, str) and expr.ENGINE is not None:
                    s = expr.ENGINE.tokmap.get(str.strip(x) + "")
                    if s is not None:
                        return s
            return float(*a, **k)

        def __eq__(cls, o):
            return o is float or o is cls

        def __hash__(cls):
            return hash(float)

    class symfloat(float, metaclass=_F):
        pass

    for m in modules():
        if not m.__name__.startswith('gimpy'):
            continue
        cur = getattr(m, 'float', float)
        if cur is float or getattr(cur, '__module__', '').startswith('future'):
            m.float = symfloat
        cur = getattr(m, 'int', int)
        if cur is int or getattr(cur, '__module__', '').startswith('future'):
            m.int = symint
