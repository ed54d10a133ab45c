"""Stand-ins for the drawing back ends: they keep what they are given."""
import sys
import types

SEEN = []       # (back end, content)
LOG = []        # how the window was run
ANSWER = [False]    # what waiting for a button gives


def _read(name):
    if hasattr(name, 'read'):
        return name.read()
    with open(name, 'rb') as f:
        return f.read()


class Image(object):
    def __init__(self, data):
        self.data = data

    def show(self):
        SEEN.append(('PIL', self.data))

    def close(self):
        pass


def install():
    m = {n: types.ModuleType(n) for n in ('pygtk', 'gtk', 'xdot', 'PIL', 'PIL.Image', 'matplotlib', 'matplotlib.pyplot')}

    class DotWindow(object):
        def set_dotcode(self, text, *a):
            SEEN.append(('xdot', text))

        def connect(self, *a):
            pass

        def show_all(self):
            pass
    m['xdot'].DotWindow = DotWindow
    m['gtk'].main = m['gtk'].main_quit = lambda *a: None
    m['PIL'].Image = m['PIL.Image']
    m['PIL'].__path__ = m['matplotlib'].__path__ = []

    def opened(f, *a, **k):
        data = _read(f)
        if not data:
            raise OSError('cannot identify image file')
        return Image(data)
    m['PIL.Image'].open = opened
    p = m['matplotlib.pyplot']
    m['matplotlib'].pyplot = p
    m['matplotlib'].use = lambda *a: None
    p.rcParams = {}

    class Figure(object):
        def __init__(self):
            self.canvas = self

        def mpl_connect(self, *a):
            pass
    p.figure = lambda *a, **k: Figure()
    p.imshow = lambda im, *a, **k: SEEN.append(('matplotlib', im.data))

    def wait(*a, **k):
        LOG.append('wait')
        return ANSWER[0]
    p.waitforbuttonpress = wait
    p.show = lambda block=None, **k: LOG.append('block' if block else 'show')
    for n in ('clf', 'axis', 'draw', 'close'):
        setattr(p, n, lambda *a, **k: None)
    sys.modules.update(m)
