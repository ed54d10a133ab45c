"""Development tool: small faults in the source of gimpy, to see which of them
the checks report.  tools/mutate.py OUT.jsonl FUNC=C01,C02 ... (works on copies)"""
import ast
import copy
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys

REPO = os.environ.get('GIMPY_REPO', '/repo')
SRC = os.path.join(REPO, 'src', 'gimpy')
WORK = '/tmp/mut'
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add}


def is_doc(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)


DISPLAY = ('display', 'set_node_attr', 'simplex_redraw', 'show_flow', 'print', 'set_layout', 'write', 'print_flow')


def shown(n):
    """only about the picture"""
    s = ast.unparse(n)
    return 'color' in s or "'label'" in s or '.display(' in s or 'print(' in s or 'fontsize' in s


def sites(fn):
    """list of (description, mutate(copy of fn))"""
    out = []
    nodes = list(ast.walk(fn))
    for i, n in enumerate(nodes):
        def at(f, i=i):
            def g(t):
                f(list(ast.walk(t))[i])
            return g
        ln = getattr(n, 'lineno', 0)
        if os.environ.get('SHOWN'):
            if isinstance(n, ast.Constant) and n.value in ('green', 'red', 'black', 'blue'):
                v = 'green' if n.value != 'green' else 'black'
                out.append(('%d colour %s -> %s' % (ln, n.value, v), at(lambda m, v=v: setattr(m, 'value', v))))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                out.append(('%d cmp %s -> %s' % (ln, ast.unparse(n), o.__name__), at(lambda m, o=o: m.ops.__setitem__(0, o()))))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant):
            out.append(('%d bin %s' % (ln, ast.unparse(n)), at(lambda m: setattr(m, 'op', BIN[type(m.op)]()))))
        elif isinstance(n, ast.BoolOp):
            out.append(('%d bool %s' % (ln, ast.unparse(n)), at(lambda m: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And()))))
            for k in range(len(n.values)):
                out.append(('%d drop operand %s' % (ln, ast.unparse(n.values[k])), at(lambda m, k=k: m.values.pop(k))))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            out.append(('%d sign %s' % (ln, ast.unparse(n)), at(lambda m: setattr(m, 'op', ast.UAdd()))))
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            for d in (1, -1):
                out.append(('%d const %r %+d' % (ln, n.value, d), at(lambda m, d=d: setattr(m, 'value', m.value + d))))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            out.append(('%d const %r' % (ln, n.value), at(lambda m: setattr(m, 'value', not m.value))))
        elif isinstance(n, ast.AugAssign):
            out.append(('%d aug %s' % (ln, ast.unparse(n)), at(lambda m: setattr(m, 'op', ast.Sub() if isinstance(m.op, ast.Add) else ast.Add()))))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and n.slice.value in (0, 1):
            pass
        elif isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load) and len(n.elts) == 2 and not isinstance(n.elts[0], ast.Constant):
            out.append(('%d swap %s' % (ln, ast.unparse(n)), at(lambda m: m.elts.reverse())))
        elif isinstance(n, (ast.Break, ast.Continue)):
            pass
        for field in ('body', 'orelse'):
            b = getattr(n, field, None)
            if not isinstance(b, list):
                continue
            for k, st in enumerate(b):
                if is_doc(st) or isinstance(st, (ast.FunctionDef, ast.Pass)) or shown(st) != bool(os.environ.get('SHOWN')):
                    continue
                if os.environ.get('SHOWN') and hasattr(st, 'body'):
                    continue
                out.append(('%d delete %s' % (st.lineno, ast.unparse(st).split('\n')[0][:90]),
                            at(lambda m, field=field, k=k: getattr(m, field).__setitem__(k, ast.Pass()))))
                if isinstance(st, ast.Break):
                    out.append(('%d break -> continue' % st.lineno, at(lambda m, field=field, k=k: getattr(m, field).__setitem__(k, ast.Continue()))))
                if isinstance(st, ast.Continue):
                    out.append(('%d continue -> break' % st.lineno, at(lambda m, field=field, k=k: getattr(m, field).__setitem__(k, ast.Break()))))
    return out


def mutants(spec):
    res = []
    files = {}
    for f in ('graph.py', 'tree.py', 'global_constants.py'):
        src = open(os.path.join(SRC, f)).read()
        files[f] = (src.split('\n'), ast.parse(src))
    for name, checks in spec:
        for f, (lines, tree) in files.items():
            for c in [tree] + [x for x in tree.body if isinstance(x, ast.ClassDef)]:
                for x in c.body:
                    q = ('%s.%s' % (c.name, x.name)) if isinstance(c, ast.ClassDef) and isinstance(x, ast.FunctionDef) else getattr(x, 'name', '')
                    if not isinstance(x, ast.FunctionDef) or q != name:
                        continue
                    for desc, mut in sites(x):
                        y = copy.deepcopy(x)
                        try:
                            mut(y)
                            text = ast.unparse(ast.fix_missing_locations(y))
                        except Exception:
                            continue
                        if text == ast.unparse(x):
                            continue
                        ind = ' ' * x.col_offset
                        new = lines[:x.lineno - 1] + [ind + l for l in text.split('\n')] + lines[x.end_lineno:]
                        res.append(dict(file=f, func=name, desc=desc, checks=checks, src='\n'.join(new)))
    return res


def run(m):
    w = os.path.join(WORK, mp.current_process().name.replace(':', '_'))
    repo, ver = os.path.join(w, 'repo'), os.path.join(w, 'verif')
    if not os.path.exists(w):
        os.makedirs(w)
        shutil.copytree(os.path.join(REPO, 'src'), os.path.join(repo, 'src'))
        os.makedirs(ver)
        for d in ('symx', 'harness', 'check.sh', 'replay.py', 'known_findings.json'):
            s = os.path.join(WORK, 'verif', d)
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(ver, d))
    f = os.path.join(repo, 'src', 'gimpy', m['file'])
    orig = open(os.path.join(SRC, m['file'])).read()
    try:
        with open(f, 'w') as o:
            o.write(m['src'])
        out = []
        for c in m['checks']:
            try:
                r = subprocess.run(['./check.sh', c, '--tier', 'quick', '--jobs', '2', '--limit', '500'], cwd=ver, capture_output=True, text=True,
                                   timeout=700, env=dict(os.environ, GIMPY_REPO=repo))
                rc = r.returncode
                inc = 'INCONCLUSIVE' in r.stdout
            except subprocess.TimeoutExpired:
                rc, inc = 'timeout', True
            out.append((c, rc, inc))
            if rc == 1:
                break
    finally:
        with open(f, 'w') as o:
            o.write(orig)
    return dict(file=m['file'], func=m['func'], desc=m['desc'], result=out, killed=out[-1][1] == 1)


def main():
    outf = sys.argv[1]
    spec = [(a.split('=')[0], a.split('=')[1].split(',')) for a in sys.argv[2:]]
    ms = mutants(spec)
    random.Random(1).shuffle(ms)
    cap = int(os.environ.get('CAP', '0'))
    if cap:
        seen = {}
        keep = []
        for m in ms:
            seen[m['func']] = seen.get(m['func'], 0) + 1
            if seen[m['func']] <= cap:
                keep.append(m)
        ms = keep
    os.makedirs(WORK, exist_ok=True)
    v = os.path.join(WORK, 'verif')
    if os.path.exists(v):
        shutil.rmtree(v)
    os.makedirs(v)
    for d in ('symx', 'harness', 'check.sh', 'replay.py', 'known_findings.json'):
        s = os.path.join('/verif', d)
        (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(v, d))
    n = k = 0
    with open(outf, 'a') as o, mp.Pool(int(os.environ.get('W', '5'))) as pool:
        for r in pool.imap_unordered(run, ms):
            n += 1
            k += r['killed']
            o.write(json.dumps(r) + '\n')
            o.flush()
            if not r['killed']:
                print('SURVIVED', r['func'], r['desc'], r['result'], flush=True)
    print('%d mutants, %d killed' % (n, k))


if __name__ == '__main__':
    main()
