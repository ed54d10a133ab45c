#!/opt/venv/bin/python
"""Re-run one recorded counterexample against the real, uninstrumented code.
exit 1: the property is violated; exit 0: it is not."""
import faulthandler
import json
import os
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    d = json.load(open(sys.argv[1]))
    from symx import loader, provider, expr as engine
    loader.load()
    import importlib
    fn = getattr(importlib.import_module('harness.' + d['mod']), d['fn'])
    h = provider.ConcH(d['values'])

    def hang(*a):
        tb = traceback.format_stack(a[1])
        sys.__stdout__.write('still running after 20 s in\n' + ''.join(tb[-4:]))
        sys.__stdout__.flush()
        os._exit(1)
    signal.signal(signal.SIGALRM, hang)
    signal.alarm(20)
    try:
        fn(h, **d['cfg'])
    except engine.PathEnd:
        pass
    except engine.PathAbort:
        print('assumption not met')
        return 0
    except Exception:
        h.failed.append('the result cannot be inspected: ' + traceback.format_exc())
    signal.alarm(0)
    sys.stdout = sys.__stdout__
    if h.failed:
        print('input: %s %s' % (json.dumps(d['cfg']), json.dumps(d['values'])))
        for l in dict.fromkeys(h.failed):
            print('violated: ' + l)
        return 1
    print('no assertion failed')
    return 0


sys.exit(main())
