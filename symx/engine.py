"""Path exploration.  The real functions run in CPython on Sym values; every
branch on a symbolic condition is decided here, with z3 deciding which sides
are feasible.  One Explorer explores one harness/configuration completely
(all feasible paths below its prefix) and has z3 decide, at the end of every
path, whether any value satisfying the path condition violates an assertion.
"""
import sys
import time
import z3
from . import expr
from .expr import PathAbort, PathEnd, BudgetExceeded, Inconclusive
from .expr import Sym, SymBool, mk_bool, f_eval, f_not, f_or, to_formula, lin_eval, mk, _norm_eq


HASH = 0x5bd1e995


class Diverged(Inconclusive):
    """the code under test did not repeat its steps"""


class Explorer(object):
    def __init__(self, prefix=(), model=None, solver_timeout_ms=60000):
        self.prefix = list(prefix)      # [(decision, note), ...]
        self.solver = z3.SimpleSolver()
        self.solver.set('timeout', solver_timeout_ms)
        self.zvars = {}
        self.zlin = {}
        self.zf = {}
        self.trail = []         # [kind, formula/def, value, open]
        self.model = dict(model or {})
        self.stats = dict(paths=0, branches=0, feas_queries=0, feas_sat=0, prop_queries=0,
                          prop_clauses=0, aborted=0, concretized=0, aux=0)
        self.solver_s = 0.0
        self.split_prefixes = []

    # ------------------------------------------------------------ z3 side
    def zv(self, v):
        r = self.zvars.get(v)
        if r is None:
            r = self.zvars[v] = z3.Int(v)
        return r

    def to_zlin(self, lin):
        r = self.zlin.get(lin)
        if r is None:
            ts = [self.zv(v) if c == 1 else c * self.zv(v) for v, c in lin[0]]
            if lin[1] or not ts:
                ts.append(z3.IntVal(lin[1]))
            r = ts[0] if len(ts) == 1 else z3.Sum(ts)
            self.zlin[lin] = r
        return r

    def to_z3(self, f):
        if f is True or f is False:
            return z3.BoolVal(f)
        r = self.zf.get(f)
        if r is None:
            op = f[0]
            if op == 'le':
                r = self.to_zlin((f[1][0], 0)) <= -f[1][1]
            elif op == 'eq':
                r = self.to_zlin((f[1][0], 0)) == -f[1][1]
            elif op == 'not':
                r = z3.Not(self.to_z3(f[1]))
            elif op == 'and':
                r = z3.And([self.to_z3(x) for x in f[1]])
            elif op == 'or':
                r = z3.Or([self.to_z3(x) for x in f[1]])
            elif op == 'def':
                _, v, o, a, b = f
                if o == '*':
                    r = self.zv(v) == self.to_zlin(a) * self.to_zlin(b)
                else:           # floor division by a constant
                    r = self.zv(v) == (self.to_zlin(a) / b if b > 0 else
                                       (-self.to_zlin(a)) / (-b))
            self.zf[f] = r
        return r

    def _check(self):
        t = time.perf_counter()
        r = self.solver.check()
        self.solver_s += time.perf_counter() - t
        if r == z3.unknown:
            raise Inconclusive('solver: ' + self.solver.reason_unknown())
        return r == z3.sat

    def _get_model(self):
        m = self.solver.model()
        d = {}
        for v in self.model:
            x = m.eval(self.zv(v), model_completion=True)
            d[v] = x.as_long()
        return d

    # ------------------------------------------------------------ exploration
    def run(self, fn, on_path=None, slice_end=None, on_unknown=None):
        """Explore every path of fn() below the prefix.  on_path(self) is called
        at each path end.  After slice_end the open decisions are handed back in
        split_prefixes, to be explored elsewhere.  on_unknown(self, why) is called
        for a path that cannot be followed to its end; it may raise."""
        prev = expr.ENGINE
        expr.ENGINE = self
        try:
            while True:
                self._begin()
                try:
                    fn()
                    ok = True
                except PathEnd:
                    ok = True
                except PathAbort:
                    ok = False
                    self.stats['aborted'] += 1
                except (Unsupported_, Inconclusive, z3.Z3Exception, MemoryError) as e:
                    ok = False
                    why = '%s: %s' % (type(e).__name__, e)
                    if on_unknown is None or isinstance(e, Diverged):
                        raise Inconclusive(why)
                    if on_unknown(self, why) == 'stop':
                        return 'stopped'
                if ok:
                    self.stats['paths'] += 1
                    if on_path is not None and on_path(self) == 'stop':
                        return 'stopped'
                if slice_end and time.time() > slice_end:
                    self._split()
                    return 'split'
                if not self._backtrack():
                    return 'complete'
        finally:
            expr.ENGINE = prev

    def _begin(self):
        self.pos = 0
        self.ndec = 0
        self.memo = {}
        self.auxmemo = {}
        self.nfresh = 0
        self.tokens = {}
        self.tokmap = {}
        self.holders = {}
        self.held = {}
        self.hashed = []
        self.checks = []
        self.obs = []
        self.created = []

    def _split(self):
        pre = []
        for e in self.trail:
            if e[0] != 'b':
                continue
            if e[3]:
                self.split_prefixes.append((pre + [(not e[2], e[4])], dict(self.model)))
            pre = pre + [(e[2], e[4])]

    def _backtrack(self):
        while self.trail:
            e = self.trail[-1]
            if e[0] == 'b' and e[3]:
                # try the other side
                self.solver.pop()
                f = e[1] if not e[2] else f_not(e[1])
                self.solver.push()
                self.solver.add(self.to_z3(f))
                self.stats['feas_queries'] += 1
                e[3] = False
                e[2] = not e[2]
                if self._check():
                    self.stats['feas_sat'] += 1
                    self.model = self._get_model()
                    return True
                self.solver.pop()
                self.trail.pop()
            else:
                self.solver.pop()
                self.trail.pop()
        return False

    def _push(self, kind, f, val, opn, note=None):
        self.trail.append([kind, f, val, opn, note])
        self.pos += 1
        self.solver.push()
        self.solver.add(self.to_z3(f if val else f_not(f)))

    def _replay(self, kind, f):
        e = self.trail[self.pos]
        if e[0] != kind or e[1] != f:
            raise Diverged('replay diverged: %r vs %r' % (e[:2], (kind, f)))
        self.pos += 1
        return e[2]

    def branch(self, f, note=None, whole=False):
        if f is True or f is False:
            return f
        neg = f[0] == 'not'
        if neg:
            f = f[1]
        r = self.memo.get(f)
        if r is None:
            if f[0] in ('and', 'or') and not whole:
                # decide the atoms one by one, with short circuit
                want = f[0] == 'or'
                r = not want
                for x in f[1]:
                    if self.branch(x) == want:
                        r = want
                        break
            elif self.pos < len(self.trail):
                r = self._replay('b', f)
                self.ndec += 1
            else:
                self.stats['branches'] += 1
                if self.ndec < len(self.prefix):
                    r = self.prefix[self.ndec][0]
                    self.ndec += 1
                    if f_eval(f, self.model) != r:
                        self._push('b', f, r, False, note)
                        self.stats['feas_queries'] += 1
                        if not self._check():
                            raise PathAbort()
                        self.stats['feas_sat'] += 1
                        self.model = self._get_model()
                    else:
                        self._push('b', f, r, False, note)
                else:
                    r = f_eval(f, self.model)
                    self.ndec += 1
                    self._push('b', f, r, True, note)
            self.memo[f] = r
        return (not r) if neg else r

    def assume(self, f):
        f = to_formula(f)
        if f is True:
            return
        if f is False:
            raise PathAbort()
        if self.pos < len(self.trail):
            self._replay('a', f)
            return
        good = f_eval(f, self.model)
        self._push('a', f, True, False)
        if not good:
            self.stats['feas_queries'] += 1
            if not self._check():
                raise PathAbort()
            self.stats['feas_sat'] += 1
            self.model = self._get_model()

    # ------------------------------------------------------------ values
    def new_int(self, name, lo=None, hi=None):
        if name in self.created:
            raise Inconclusive('duplicate symbolic name ' + name)
        self.created.append(name)
        v = self.model.get(name)
        if v is None or (lo is not None and v < lo) or (hi is not None and v > hi):
            if self.pos >= len(self.trail):
                v = 0
                if lo is not None and v < lo:
                    v = lo
                if hi is not None and v > hi:
                    v = hi
                self.model[name] = v
            elif v is None:
                raise Inconclusive('unknown variable on replay')
        s = Sym(((name, 1),), 0)
        if lo is not None and lo == hi:
            self.assume(s == lo)
            return lo
        if lo is not None:
            self.assume(s >= lo)
        if hi is not None:
            self.assume(s <= hi)
        return s

    def aux(self, op, a, b):
        if op == '*' and a.lin > b.lin:
            a, b = b, a
        key = (op, a.lin, b.lin if type(b) is Sym else b)
        r = self.auxmemo.get(key)
        if r is None:
            r = self.auxmemo[key] = self._aux(op, a, b)
        return r

    def _aux(self, op, a, b):
        self.nfresh += 1
        self.stats['aux'] += 1
        name = '_%s%d' % (op, self.nfresh)
        al = a.lin
        bl = b.lin if type(b) is Sym else b
        f = ('def', name, op, al, bl)
        if self.pos < len(self.trail):
            self._replay('a', f)
        else:
            x = lin_eval(al, self.model)
            y = lin_eval(bl, self.model) if type(b) is Sym else b
            self.model[name] = x * y if op == '*' else x // y
            self._push('a', f, True, False)
        return Sym(((name, 1),), 0)

    def concretize(self, s):
        """fork over the value of s (complete if the domain is finite)"""
        if type(s) is not Sym:
            return s
        self.stats['concretized'] += 1
        for _ in range(64):
            v = self._candidate(s)
            if self.branch(to_formula(s == v), v):
                return v
        raise Unsupported_('more than 64 values for one concretisation')

    def _candidate(self, s):
        # must be a function of the decisions taken so far, for replays
        for f, val in self.memo.items():
            if val and f[0] == 'eq' and f[1][0] == s.t:
                return s.k - f[1][1]
        if self.pos < len(self.trail):
            return self.trail[self.pos][4]
        if self.ndec < len(self.prefix):
            return self.prefix[self.ndec][1]
        return lin_eval(s.lin, self.model)

    def hash_of(self, s):
        return HASH

    def token(self, s):
        """text for a symbolic integer: an unlikely decimal numeral"""
        key = s._key()
        t = self.tokens.get(key)
        if t is None:
            t = expr.Num('%d' % (9400000000 + 1009 * len(self.tokens)))
            t.sym = s
            self.tokens[key] = t
            self.tokmap[t + ''] = s
        return t

    # ------------------------------------------------------------ assertions
    def check(self, label, f):
        self.checks.append((label, to_formula(f)))

    def decide(self):
        """z3: is there a value on this path that violates an assertion?
        returns None or (model, [labels])"""
        fs = [f for _, f in self.checks if f is not True]
        if not fs:
            return None
        m = self.model
        if all(f_eval(f, m) for f in fs):
            neg = f_or([f_not(f) for f in fs])
            if neg is False:
                return None
            self.stats['prop_queries'] += 1
            self.stats['prop_clauses'] += len(fs)
            self.solver.push()
            try:
                self.solver.add(self.to_z3(neg))
                if not self._check():
                    return None
                m = self._get_model()
            finally:
                self.solver.pop()
        else:
            self.stats['prop_queries'] += 1
            self.stats['prop_clauses'] += len(fs)
            m = dict(m)
        bad = [l for l, f in self.checks if not f_eval(f, m)]
        return m, bad


Unsupported_ = expr.Unsupported
