"""Explore one scenario (harness + configuration) below a decision prefix."""
import importlib
import os
import sys
import time
import traceback
from . import expr, engine, provider, loader

TOOL = 3
_budget = [0, 0]
_funcs = set()
_ready = False


def _collect(code, acc):
    acc.add(code)
    for c in code.co_consts:
        if type(c) is type(code):
            _collect(c, acc)


def _all_codes():
    acc = set()
    for m in loader.modules():
        f = getattr(m, '__file__', None)
        for o in list(vars(m).values()):
            if getattr(o, '__module__', None) != m.__name__:
                continue
            if isinstance(o, type):
                for x in vars(o).values():
                    x = getattr(x, '__func__', x)
                    if isinstance(x, property):
                        for y in (x.fget, x.fset):
                            if y:
                                _collect(y.__code__, acc)
                    elif hasattr(x, '__code__'):
                        _collect(x.__code__, acc)
            elif hasattr(o, '__code__'):
                _collect(o.__code__, acc)
    return acc


def setup():
    global _ready
    if _ready:
        return
    loader.load()
    loader.install_shadows()
    mon = sys.monitoring
    mon.use_tool_id(TOOL, 'symx')

    def tick(code, *a):
        b = _budget
        b[0] += 1
        if b[0] > b[1] and b[1]:
            b[0] = 0
            raise engine.BudgetExceeded()

    def start(code, off):
        _funcs.add(code)
        tick(code)

    mon.register_callback(TOOL, mon.events.PY_START, start)
    mon.register_callback(TOOL, mon.events.JUMP, tick)
    cov = os.environ.get('SYMX_COV')    # development: lines of the package that ran
    if cov:
        f = open(os.path.join(cov, str(os.getpid())), 'w', 1)

        def line(code, n):
            f.write('%s %d\n' % (os.path.basename(code.co_filename), n))
            return mon.DISABLE
        mon.register_callback(TOOL, mon.events.LINE, line)
    for c in _all_codes():
        watch(c)
        if cov:
            mon.set_local_events(TOOL, c, mon.events.PY_START | mon.events.JUMP | mon.events.LINE)
    _ready = True


def watch(code):
    mon = sys.monitoring
    mon.set_local_events(TOOL, code, mon.events.PY_START | mon.events.JUMP)


def harness(mod, name):
    return getattr(importlib.import_module('harness.' + mod), name)


def guarded(fn, h, cfg):
    """an exception in the harness itself: the result has an unusable shape"""
    try:
        fn(h, **cfg)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        h.check('the result can be inspected: %s at %s:%s' % (
            type(e).__name__, tb.filename.rsplit('/', 1)[-1], tb.name), False)


def explore(task):
    """task: mod, fn, cfg, prefix, model, slice_s, budget, validate"""
    setup()
    mod, name, cfg, prefix, model, slice_s, budget, validate = task
    fn = harness(mod, name)
    ex = engine.Explorer(prefix, model)
    res = dict(prefixes=[], violation=None, labels={}, samples=[], validated=0,
               inconclusive=[], unknown=0)
    t0 = time.time()
    h = provider.SymH(ex)
    _budget[1] = budget

    def one():
        _budget[0] = 0
        try:
            guarded(fn, h, cfg)
        except engine.BudgetExceeded:
            raise engine.Inconclusive('step budget exceeded outside a guarded call')

    def real_run(vals):
        c = provider.ConcH(vals)
        expr.ENGINE = None
        _budget[0] = 0
        try:
            guarded(fn, c, cfg)
        except (engine.PathEnd, engine.PathAbort, engine.BudgetExceeded):
            pass
        finally:
            expr.ENGINE = ex
            _budget[0] = -10 ** 9
        return c

    def unknown(why):
        if len(res['inconclusive']) < 5:
            res['inconclusive'].append(why)
        res['unknown'] += 1

    def on_unknown(ex, why):
        # this path is not decided for all values; look at one of them
        unknown(why)
        _budget[0] = -10 ** 9
        vals = {k: ex.model[k] for k in ex.created}
        c = real_run(vals)
        if c.failed:
            res['violation'] = dict(values=vals, labels=c.failed)
            return 'stop'
        if res['unknown'] >= 2000:
            raise engine.Inconclusive('too many undecided paths')

    def on_path(ex):
        _budget[0] = -10 ** 9
        for l, _ in ex.checks:
            res['labels'][l] = res['labels'].get(l, 0) + 1
        bad = ex.decide()
        if bad:
            m, labels = bad
            vals = {n: m[n] for n in ex.created}
            res['violation'] = dict(values=vals, labels=labels)
            return 'stop'
        n = ex.stats['paths']
        if validate and (n <= 3 or n % validate == 0):
            vals = {k: ex.model[k] for k in ex.created}
            exp = [(k, provider.plain(v, ex.model)) for k, v in ex.obs]
            nsym = len(ex.checks)
            c = real_run(vals)
            got = [(k, provider.plain(v, {})) for k, v in c.obs]
            if c.failed:
                res['violation'] = dict(values=vals, labels=c.failed)
                return 'stop'
            if got != exp or c.nchecks != nsym:
                unknown('the symbolic path and the real run disagree: values=%r '
                        'checks %d/%d\n sym=%r\nreal=%r' % (vals, nsym, c.nchecks, exp, got))
                return
            res['validated'] += 1
            if len(res['samples']) < 2:
                res['samples'].append(dict(scenario=name, cfg=cfg, values=vals,
                                           path_decisions=ex.ndec, assertions=nsym))

    try:
        ex.run(one, on_path, t0 + slice_s, on_unknown)
    except (engine.Inconclusive, engine.PathAbort) as e:
        unknown('%s' % e)
    except BaseException as e:      # never let a worker die silently
        unknown('internal error: ' + ''.join(traceback.format_exception(e))[-2000:])
    res['prefixes'] = ex.split_prefixes
    res['stats'] = ex.stats
    res['solver_s'] = ex.solver_s
    res['wall'] = time.time() - t0
    res['funcs'] = sorted({c.co_qualname for c in _funcs if '<' not in c.co_qualname.split('.')[-1]})
    return res
