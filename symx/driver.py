"""Runs the tasks of one property: symbolic exploration in worker processes, native replay of every
counterexample, known findings, evidence."""
import glob
import hashlib
import importlib
import json
import logging
import multiprocessing
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.environ.get('VERIF_OUT', VERIF)
NATIVE_PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable


class Task(object):
    """One harness with fixed (concrete) parameters."""
    __slots__ = ('name', 'module', 'fn', 'params', 'budget', 'max_paths', 'finding', 'weight', 'expect_reach')

    def __init__(self, name, module, fn, params=None, budget=60.0, max_paths=200000, finding=None, weight=1):
        self.name, self.module, self.fn, self.params = name, module, fn, params or {}
        self.budget, self.max_paths, self.finding, self.weight = budget, max_paths, finding, weight


SOON = float(os.environ.get('VERIF_SOON', '200'))            # seconds after which one confirmed violation ends the run
_DEADLINE = [None]
STATE = [None]


def named(params):
    """The classes whose names occur in the parameters of a task."""
    from harness.model import CLASSES, cls
    out = []

    def go(v):
        if isinstance(v, str):
            if v in CLASSES:
                try:
                    out.append(cls(v))
                except Exception:
                    pass
        elif isinstance(v, (list, tuple)):
            for x in v:
                go(x)
    go(list(params.values()))
    return out


def _init_worker():
    from . import core
    core.watch()
    limit(4 << 30)


def limit(n):
    """Code that allocates without end must not take the machine down."""
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (n, n))
    except Exception:
        pass


def run_task(t):
    from . import core, harness
    if time.time() > _DEADLINE[0]:
        return dict(name=t.name, skipped=True)
    mod = sys.modules.get(t.module) or importlib.import_module(t.module)
    fn = getattr(mod, t.fn)
    eng = core.Engine(budget_s=min(t.budget, max(5.0, _DEADLINE[0] - time.time())), max_paths=t.max_paths)
    t0 = time.time()
    if STATE[0] is not None:
        STATE[0].full()
        parts = STATE[0].scope(named(t.params))
        eng.reset = lambda: STATE[0].restore(parts)
    eng.explore(lambda: fn(harness.SymH(eng, t.params), **t.params), max_cex=12 if t.finding else 2)
    return dict(name=t.name, cex=eng.cex, probes=eng.probes, stats=eng.stats, notes=eng.notes, complete=eng.complete,
                reached=eng.reached, wall=time.time() - t0, sample=eng.sample, slowest=eng.slowest)


def run_tasks(ts):
    return [run_task(t) for t in ts]


def replay_batch(cases):
    """[(reproduced, text)] from a fresh uninstrumented interpreter."""
    if not cases:
        return []
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH='', PYTHONHASHSEED='0',
               LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0', PYTHONIOENCODING='utf-8')     # the poorest locale
    try:
        p = subprocess.run([NATIVE_PY, os.path.join(VERIF, 'symx', 'replay.py'), '--batch'],
                           input=json.dumps(cases), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           timeout=240, env=env, cwd='/tmp')
        out = p.stdout
        return json.loads(out[out.rindex('@@RESULT@@') + len('@@RESULT@@'):])
    except Exception as ex:
        err = getattr(ex, 'stderr', '') or ''
        try:
            err = p.stderr[-600:]
        except Exception:
            pass
        return [(False, 'replay crashed: %r %s' % (ex, err))] * len(cases)


def replay_all(cases, stop):
    if len(cases) < 12:
        return replay_batch(cases)
    from concurrent.futures import ThreadPoolExecutor
    parts = [cases[i:i + 20] for i in range(0, len(cases), 20)]

    def one(p):
        if time.time() > stop:
            return [(False, 'not replayed within the time budget')] * len(p)
        return replay_batch(p)
    with ThreadPoolExecutor(min(8, os.cpu_count() or 1)) as ex:
        return [v for vs in ex.map(one, parts) for v in vs]


def _case(prop, t, label, values):
    return dict(property=prop, task=t.name, module=t.module, fn=t.fn, params=t.params, values=values, label=label)


def load_findings():
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        return json.load(f)


def run(prop, tasks, tier, meta, total_budget, jobs=None):
    """Explore, replay, report. Returns the exit code."""
    t0 = meta.get('t0', time.time())
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    findings = {f['id']: f for f in load_findings() if f['property'] == prop and f.get('status') == 'known'}
    _DEADLINE[0] = time.time() + total_budget
    by_name = {}
    for t in tasks:
        assert t.name not in by_name, 'duplicate task %s' % t.name
        by_name[t.name] = t
    order = sorted(tasks, key=lambda t: -t.weight)
    from . import state
    STATE[0] = state.State(REPO)
    jobs = jobs or min(8, os.cpu_count() or 1, max(1, len(order)))
    results = []
    broken = 0
    if jobs == 1:
        results = [run_task(t) for t in order]
    else:
        ctx = multiprocessing.get_context('fork')
        chunk = max(1, min(4, len(order) // (jobs * 16)))
        with ctx.Pool(jobs, initializer=_init_worker) as pool:
            enough, soon = 60, t0 + SOON
            left = pool.imap_unordered(run_tasks, [order[i:i + chunk] for i in range(0, len(order), chunk)])
            while True:
                try:
                    rs = left.next(timeout=5)
                except StopIteration:
                    break
                except multiprocessing.TimeoutError:
                    rs = []
                for r in rs:
                    results.append(r)
                    broken += bool(r.get('cex')) and by_name[r['name']].finding is None
                late = broken and time.time() > soon
                if broken >= enough or late:
                    # enough to report, if they are real
                    cases = [_case(prop, by_name[x['name']], l, v) for x in results for l, v in (x.get('cex') or [])[:1]
                             if by_name[x['name']].finding is None][-60:]
                    if any(ok for ok, _ in replay_all(cases, meta.get('stop', t0 + 1e9))):
                        pool.terminate()
                        break
                    if late:
                        soon = time.time() + SOON
                    else:
                        enough *= 2
    return report(prop, by_name, results, tier, seed, meta, findings, t0)


def report(prop, by_name, results, tier, seed, meta, findings, t0):
    agg, notes, reached = {}, {}, {}
    skipped, incomplete, vacuous = [], [], []
    first, later = [], []
    for r in sorted(results, key=lambda r: r['name']):
        t = by_name[r['name']]
        if r.get('skipped'):
            skipped.append(t.name)
            continue
        for k, v in r['stats'].items():
            agg[k] = agg.get(k, 0) + v
        for k, v in r['notes'].items():
            notes[k] = notes.get(k, 0) + v
        for k, v in r['reached'].items():
            reached[k] = reached.get(k, 0) + v
        if not r['cex']:
            if not r['complete'] or r['stats']['unsupported'] or r['stats']['unknown']:
                incomplete.append(t.name)
            elif r['stats']['obligations'] == 0:
                vacuous.append(t.name)
        for label, values in r['cex']:
            first.append((_case(prop, t, label, values), 'cex'))
        for n, (label, values) in enumerate(r['probes'][:4]):
            later.append((n, _case(prop, t, label, values), 'probe'))
    later = [x[1:] for x in sorted(later, key=lambda x: x[0])]
    room = max(100, 500 - len(first))
    later = later[::max(1, len(later) // room)]
    both = first[:400] + later[:room]
    cases, kinds = [x[0] for x in both], [x[1] for x in both]
    verdicts = replay_all(cases, meta.get('stop', t0 + 1e9))
    rdir = os.path.join(OUT, 'replays')
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, prop + '-*.json')):
        os.unlink(f)
    violations, unreproduced, known_hit = [], [], {}
    for case, kind, (ok, text) in zip(cases, kinds, verdicts):
        t = by_name[case['task']]
        if not ok:
            if kind == 'cex':
                unreproduced.append('%s: %s -> %s' % (t.name, case['label'], text))
            continue
        f = findings.get(t.finding) if t.finding else None
        if f is not None and t.name in f['tasks'] and any(s in text for s in f['labels']):
            known_hit.setdefault(f['id'], []).append((t.name, text, case))
            continue
        h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(rdir, '%s-%s.json' % (prop, h))
        with open(path, 'w') as fh:
            json.dump(dict(case, observed=text), fh, indent=1)
        violations.append((t.name, text, path))
    for fid, f in sorted(findings.items()):
        if fid in known_hit:
            print('KNOWN-FINDING: property=%s %s: %s' % (prop, fid, f['what']))
        else:
            print('note: known finding %s of %s was not observed in this run' % (fid, prop))
    printed = set()
    for name, text, path in violations:
        key = (name, text[:60])
        if key in printed or len(printed) >= 25:
            continue
        printed.add(key)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  %s: %s' % (name, text))
    for u in unreproduced[:10]:
        print('inconclusive (counterexample did not reproduce natively): %s' % u)
    for n in incomplete[:10]:
        print('inconclusive (not fully explored): %s' % n)
    for n, c in sorted(notes.items())[:12]:
        print('note: %s (x%d)' % (n, c))
    if skipped:
        print('not run within the time budget: %d tasks, e.g. %s' % (len(skipped), skipped[:3]))
    if vacuous:
        print('vacuous harnesses: %s' % vacuous[:10])
    decided = [r for r in results if not r.get('skipped') and r['complete'] and r['stats']['obligations'] and not r['stats']['unsupported']]
    from . import instrument
    samples = [dict(task=r['name'], path_inputs=r['sample']) for r in results if r.get('sample') is not None][:3]
    cov = dict(
        explanation=meta['explanation'],
        bounds=meta['bounds'],
        functions_encoded=dict(modules=instrument.STATS['modules'], functions=instrument.STATS['functions'],
                               lines=instrument.STATS['lines'],
                               listed=meta.get('functions', sorted(k for k in instrument.LOADED if not k.startswith('harness'))[:60])),
        harnesses=len(by_name), harnesses_decided=len(decided), harnesses_skipped=len(skipped),
        harnesses_inconclusive=len(incomplete) + len(unreproduced), vacuous=len(vacuous),
        obligations=agg.get('obligations', 0), discharged=agg.get('by_solver', 0) + agg.get('by_simplifier', 0),
        discharged_by_solver_query=agg.get('by_solver', 0), discharged_by_term_simplification=agg.get('by_simplifier', 0),
        solver_queries=agg.get('queries', 0), solver_seconds=round(agg.get('solver_s', 0.0), 2),
        solver_unknown=agg.get('unknown', 0), states=agg.get('paths', 0), paths=agg.get('paths', 0),
        transitions=agg.get('decisions', 0), symbolic_branches=agg.get('decisions', 0),
        traces_validated_against_impl=len(cases), counterexamples_replayed=len(cases),
        reachability_witnesses=reached, slowest_path_s=round(max([r.get('slowest', 0) for r in results] or [0]), 2), samples=samples or [dict(note='no path completed')],
        inconclusive=(unreproduced + incomplete)[:40], notes=notes,
        known_findings=sorted(known_hit), exhaustive=False)
    cov.update(meta.get('extra', {}))
    ev = dict(property=prop, tier=tier, seed=seed, level=meta.get('level', 'other'), coverage=cov,
              assumptions=meta.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    print('%s %s: harnesses %d (decided %d, inconclusive %d, skipped %d), paths %d, obligations %d, queries %d, solver %.1fs, wall %.1fs'
          % (prop, tier, len(by_name), len(decided), len(incomplete) + len(unreproduced), len(skipped),
             agg.get('paths', 0), agg.get('obligations', 0), agg.get('queries', 0), agg.get('solver_s', 0.0), time.time() - t0))
    if violations:
        return 1
    if vacuous or not decided:
        return 2
    return 0
