"""python3-vt -m symx.main <property> [--tier quick|thorough]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV = '/opt/venv/bin/python'
REPLAY_TIMEOUT = 20


def sig_match(entry, prop, scen, viol):
    if entry.get('property') != prop or entry.get('status') != 'known':
        return False
    if entry.get('scenario') and entry['scenario'] != scen['fn']:
        return False
    if entry.get('cfg') and any(scen['cfg'].get(k) != v for k, v in entry['cfg'].items()):
        return False
    return all(any(l.startswith(p) for p in entry['labels']) for l in viol['labels'])


def replay(path):
    env = dict(os.environ, PYTHONHASHSEED='0', MPLBACKEND='Agg')
    try:
        r = subprocess.run([VENV, os.path.join(HERE, 'replay.py'), path], env=env,
                           stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=REPLAY_TIMEOUT + 40)
    except subprocess.TimeoutExpired:
        return 'hang', 'the replay was still running after its time limit'
    if r.returncode == 1:
        return 'confirmed', r.stdout.strip()
    if r.returncode == 0:
        return 'not reproduced', r.stdout.strip()
    return 'error', (r.stdout + r.stderr)[-2000:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('--only')
    ap.add_argument('--limit', type=float)
    ap.add_argument('--profile', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    prop = a.property
    from . import worker
    worker.setup()
    pm = importlib.import_module('harness.' + prop)
    scens = []
    for s in pm.scenarios(a.tier):
        fn, cfg = s[0], dict(s[1])
        scens.append(dict(fn=fn.__name__, mod=fn.__module__.split('.')[-1], cfg=cfg))
    if a.only:
        scens = [s for s in scens if a.only in json.dumps(s)]
    limit = a.limit or getattr(pm, 'LIMIT', {}).get(a.tier, 600 if a.tier == 'quick' else 850)
    budget = getattr(pm, 'BUDGET', 200000)
    kf = os.path.join(HERE, 'known_findings.json')
    known = json.load(open(kf))['findings'] if os.path.exists(kf) else []
    slice_s = 3.0 if a.tier == 'quick' else 10.0

    pool = mp.get_context('fork').Pool(a.jobs)
    pending = [(i, [], {}) for i in range(len(scens))]
    live = []
    tot = dict(paths=0, branches=0, feas_queries=0, feas_sat=0, prop_queries=0, prop_clauses=0,
               aborted=0, concretized=0, aux=0)
    labels, samples, funcs, incon = {}, [], set(), []
    solver_s = validated = cpu = unknown = 0
    per = [dict(paths=0, checks=0, cpu=0.0, done=True) for _ in scens]
    found, listed, unrepro = [], {}, []
    stopped = set()
    complete = True
    os.makedirs(os.path.join(HERE, 'evidence', 'replays'), exist_ok=True)

    while pending or live:
        while pending and len(live) < a.jobs * 2:
            i, pre, model = pending.pop()
            if i in stopped:
                continue
            s = scens[i]
            live.append((i, pool.apply_async(worker.explore, ((
                s['mod'], s['fn'], s['cfg'], pre, model, slice_s, budget, 200),))))
        done = [x for x in live if x[1].ready()]
        if not done:
            if time.time() - t0 > limit:
                complete = False
                if a.profile:
                    for x in live:
                        print('unfinished: %s' % json.dumps(scens[x[0]]))
                break
            time.sleep(0.005)
            continue
        for x in done:
            live.remove(x)
            i, r = x[0], x[1].get()
            s = scens[i]
            for k in tot:
                tot[k] += r['stats'][k]
            solver_s += r['solver_s']
            cpu += r['wall']
            validated += r['validated']
            per[i]['paths'] += r['stats']['paths']
            per[i]['checks'] += sum(r['labels'].values())
            per[i]['cpu'] += r['wall']
            for l, n in r['labels'].items():
                labels[l] = labels.get(l, 0) + n
            if len(samples) < 12:
                samples += r['samples'][:1]
            funcs.update(r['funcs'])
            unknown += r['unknown']
            incon += ['%s %s: %s' % (s['fn'], json.dumps(s['cfg']), x) for x in r['inconclusive'][:50 - len(incon)]]
            v = r['violation']
            if v and i not in stopped:
                stopped.add(i)
                path = os.path.join(HERE, 'evidence', 'replays', '%s-%d.json' % (prop, len(found) + len(unrepro) + len(listed)))
                with open(path, 'w') as f:
                    json.dump(dict(property=prop, mod=s['mod'], fn=s['fn'], cfg=s['cfg'],
                                   values=v['values'], labels=v['labels']), f, indent=1)
                st, txt = replay(path)
                if st in ('confirmed', 'hang'):
                    ent = [e for e in known if sig_match(e, prop, s, v)]
                    if ent:
                        listed[ent[0]['what']] = path
                    else:
                        found.append((s, v, path, txt))
                else:
                    unrepro.append('%s %s %s: %s (%s)' % (s['fn'], json.dumps(s['cfg']), v['labels'], st, txt))
            if not v:
                for pre, model in r['prefixes']:
                    pending.append((i, pre, model))
        if found and not os.environ.get('SYMX_ALL'):
            break
        if time.time() - t0 > limit:
            complete = False
            break
    pool.terminate()
    wall = time.time() - t0
    for i, p in enumerate(per):
        if not found and complete and i not in stopped and p['checks'] == 0:
            incon.append('vacuous: no assertion on any path of %s %s' % (scens[i]['fn'], json.dumps(scens[i]['cfg'])))

    fams = {}
    for s, p in zip(scens, per):
        e = fams.setdefault(s['fn'], dict(scenarios=0, paths=0, assertions=0))
        e['scenarios'] += 1
        e['paths'] += p['paths']
        e['assertions'] += p['checks']
    ev = dict(
        property=prop, tier=a.tier, seed=seed, level='model_checking',
        coverage=dict(
            states=tot['branches'] + tot['paths'], transitions=tot['feas_sat'] + tot['paths'],
            traces_validated_against_impl=validated,
            samples=samples or [dict(note='no complete path')],
            paths=tot['paths'], exploration_complete=complete and not stopped and not incon,
            symbolic_branches=tot['branches'], feasibility_queries=tot['feas_queries'],
            property_queries=tot['prop_queries'], assertion_instances_decided=sum(labels.values()),
            assertions={l: n for l, n in sorted(labels.items())[:80]},
            solver='z3 ' + __import__('z3').get_version_string(), solver_s=round(solver_s, 3),
            cpu_s=round(cpu, 2),
            functions_encoded=sorted(funcs), bounds=getattr(pm, 'BOUNDS', {}).get(a.tier, ''),
            outside=getattr(pm, 'OUTSIDE', ''), scenarios=fams,
            undecided_paths=unknown,
            known_findings=sorted(listed), inconclusive=incon + unrepro),
        assumptions=getattr(pm, 'ASSUMPTIONS', []) + BASE_ASSUMPTIONS,
        wall_s=round(wall, 2), violations=len(found))
    evp = os.path.join(HERE, 'evidence', prop + '.json')
    with open(evp + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.replace(evp + '.tmp', evp)

    for w in sorted(listed):
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    if a.profile:
        for s, p in sorted(zip(scens, per), key=lambda x: -x[1]['cpu'])[:15]:
            print('%7.2fs %6d paths %7d checks %s %s' % (p['cpu'], p['paths'], p['checks'], s['fn'], json.dumps(s['cfg'])))
    print('%s %s: %d scenarios, %d paths, %d branches, %d+%d queries, solver %.1fs, %d paths validated, '
          'wall %.1fs%s' % (prop, a.tier, len(scens), tot['paths'], tot['branches'], tot['feas_queries'],
                            tot['prop_queries'], solver_s, validated, wall,
                            '' if complete else ' INCOMPLETE (time limit; what was explored held)'))
    for s, v, path, txt in found:
        print('scenario %s %s' % (s['fn'], json.dumps(s['cfg'])))
        print('  fails: %s' % '; '.join(v['labels'][:6]))
        print('  replay: %s' % txt.replace('\n', '\n  ')[:3000])
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if found:
        return 1
    for x in (incon + unrepro)[:10]:
        print('INCONCLUSIVE ' + x[:3000])
    if incon or unrepro:
        print('INCONCLUSIVE %d paths are not decided for all values; what was explored held' % unknown)
    # no answer only if nothing at all was decided
    return 0 if sum(labels.values()) else 2


BASE_ASSUMPTIONS = [
    'CPython 3.12 executes the repository code; a symbolic value is a mathematical integer '
    '(Python integers are unbounded), floats only where a harness says so',
    'matplotlib, PIL, dot2tex and other display libraries are absent during the check (imports blocked)',
    'bounds are those listed; nothing is claimed beyond them',
]

if __name__ == '__main__':
    sys.exit(main())
