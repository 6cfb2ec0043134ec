#!/opt/venv/bin/python
"""Decide one property by symbolic execution of /repo's current source.

usage: check.py <PROPERTY> [--tier quick|thorough] [--only SUBSTR] [-v]
       check.py --replay FILE
"""
import argparse
import importlib
import json
import os
import pickle
import re
import select
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0' or os.environ.get('OMP_NUM_THREADS') != '1':
    os.environ['PYTHONHASHSEED'] = '0'
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMEXPR_NUM_THREADS'):
        os.environ[v] = '1'
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

WALL = {'quick': 120.0, 'thorough': 840.0}
JOB = {'quick': 60.0, 'thorough': 400.0}
PATHS = {'quick': 4000, 'thorough': 100000}
REPLAYS = {'quick': 6, 'thorough': 40}


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    try:
        with open(p) as f:
            return json.load(f)
    except FileNotFoundError:
        return []


def matches_known(k, prop, v):
    if k.get('status') != 'known' or k.get('property') != prop:
        return False
    if k.get('harness') != v['harness']:
        return False
    for a, b in (k.get('params') or {}).items():
        if v['params'].get(a) != b:
            return False
    if not re.search(k.get('message', '$^'), v['msg']):
        return False
    for a, b in (k.get('inputs') or {}).items():
        if str(v['inputs'].get(a)) != str(b):
            return False
    return True


def spec(j):
    fn, params = j[0], j[1]
    o = dict(j[2]) if len(j) > 2 else {}
    return fn, params, o


def run_job(j, tier, seed, deadline, cross):
    from symex import explore
    fn, params, o = spec(j)
    budget = min(o.get('budget', JOB[tier]), max(3.0, deadline - time.monotonic()))
    job = explore.Job(fn.__name__, fn, params, budget, o.get('max_paths', PATHS[tier]), o.get('replays', REPLAYS[tier]),
                      crosscheck=cross, seed=seed, qtimeout=o.get('qtimeout', 6000 if tier == 'quick' else 30000))
    t = time.monotonic()
    r = job.run()
    r['wall'] = time.monotonic() - t
    return r


def spawn(j, *a):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.setpgid(0, 0)
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        try:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        except Exception:
            pass
        try:
            try:
                res = run_job(j, *a)
            except BaseException as e:
                import traceback
                res = dict(crash='%s: %s' % (type(e).__name__, e), tb=traceback.format_exc())
            with os.fdopen(w, 'wb') as f:
                f.write(json.dumps(res, default=str).encode())
        finally:
            os._exit(0)
    os.close(w)
    return pid, r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default='')
    ap.add_argument('--workers', type=int, default=0)
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from symex import explore, loader
    if a.replay:
        with open(a.replay) as f:
            v = json.load(f)
        explore.import_real()
        h = importlib.import_module('harness.' + v['property'].lower())
        r = explore.run_concrete(getattr(h, v['harness']), v['params'], v['inputs'])
        print(json.dumps(r, indent=1))
        sys.exit(0 if r['status'] in ('ok', 'assume') else 1)
    prop, tier = a.prop, a.tier
    out = os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(out, 'replay'), exist_ok=True)
    h = importlib.import_module('harness.' + prop.lower())
    crash = None
    try:
        explore.import_real()
    except Exception as e:
        crash = 'importing pysad failed: %s: %s' % (type(e).__name__, e)
    explore.start_monitor()
    jobs = [j for j in h.jobs(tier) if a.only in j[0].__name__ + str(j[1])]
    njobs = len(jobs)
    deadline = t0 + WALL[tier]
    cross = (15 if tier == 'thorough' else 0)
    W = a.workers or min(8, os.cpu_count() or 4)
    results, running, hit = [], {}, False
    todo = list(jobs)
    known = load_known()
    skipped = 0
    if crash:
        todo = []
    while todo or running:
        while todo and len(running) < W and not hit:
            if time.monotonic() > deadline - 2:
                skipped += len(todo)
                todo = []
                break
            j = todo.pop(0)
            pid, fd = spawn(j, tier, seed, deadline, cross)
            running[fd] = [pid, j, b'', time.monotonic()]
        if hit:
            skipped += len(todo)
            todo = []
        if not running:
            break
        rl, _, _ = select.select(list(running), [], [], 1.0)
        for fd in rl:
            d = os.read(fd, 1 << 20)
            if d:
                running[fd][2] += d
                continue
            os.close(fd)
            pid, j, buf, ts = running.pop(fd)
            os.waitpid(pid, 0)
            fn, params, o = spec(j)
            try:
                r = json.loads(buf.decode())
            except Exception:
                r = dict(crash='worker died')
            r['job'] = fn.__name__ + str(params)
            results.append(r)
            for v in r.get('violations', []):
                if not any(matches_known(k, prop, v) for k in known):
                    hit = True
        now = time.monotonic()
        for fd, (pid, j, buf, ts) in list(running.items()):
            if now > deadline + 25 or now > ts + JOB[tier] * 1.5 + 10 or (hit and now > t0 + 5):
                try:
                    os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.waitpid(pid, 0)
                os.close(fd)
                running.pop(fd)
                skipped += 1

    # ---- report
    agg = {}
    funcs, samples, viol, unconf, errs, limits, unk = set(), [], [], [], {}, {}, {}
    rep = ok = 0
    nonev = 0
    crosst = {}
    msgs = {}
    incomplete = []
    for r in results:
        if 'crash' in r:
            errs[r['job'] + ': ' + r['crash']] = r.get('tb', '')
            continue
        s = r['stats']
        for k, v in s.items():
            if isinstance(v, (int, float)):
                agg[k] = agg.get(k, 0) + v
        for k, v in s.get('limit_why', {}).items():
            limits[k] = limits.get(k, 0) + v
        for k, v in s.get('unknown_msgs', {}).items():
            unk[k] = unk.get(k, 0) + v
        for k, v in (r.get('cross') or {}).items():
            crosst[k] = crosst.get(k, 0) + v
        for k, v in r['msgs'].items():
            msgs[k] = msgs.get(k, 0) + v
        funcs.update(r['funcs'])
        samples += r['samples'][:1]
        viol += r['violations']
        unconf += [dict(u, job=r['job']) for u in r['unconfirmed']]
        rep += r['replays']
        ok += r['replay_ok']
        for k, v in r['engine_errors'].items():
            errs[r['job'] + ': ' + k] = v[0]
        if s.get('unexplored') or s.get('limited') or s.get('unknown'):
            incomplete.append('%s (unexplored %d, given up %d, unknown %d)' % (r['job'], s.get('unexplored', 0), s.get('limited', 0), s.get('unknown', 0)))
    if a.v:
        for r in sorted(results, key=lambda r: -r.get('wall', 0)):
            if 'crash' in r:
                print('CRASH', r['job'], r['crash'], r.get('tb', '')[-1500:])
                continue
            print('%6.1fs %s %s rep %d/%d chk %d%s' % (r['wall'], r['job'], {k: (round(v, 1) if isinstance(v, float) else v) for k, v in r['stats'].items() if v},
                                                    r['replay_ok'], r['replays'], r['nchecks'], ' UNCONF %d' % r['n_unconfirmed'] if r['n_unconfirmed'] else ''))
            if not r['nchecks']:
                print('     !!! no checks evaluated')
        for u in unconf[:6]:
            print('UNCONF', json.dumps(u, default=str)[:1500])
        for k, v in list(errs.items())[:8]:
            print('ERR', k, '\n', v[-1500:])
    rc = 0
    seen = set()
    n = 0
    if crash:
        rp = os.path.join(out, 'replay', prop + '_import.json')
        with open(rp, 'w') as f:
            json.dump(dict(property=prop, msg=crash), f)
        print(crash)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        rc = 1
    for v in viol:
        k = next((k for k in known if matches_known(k, prop, v)), None)
        if k is not None:
            if id(k) not in seen:
                seen.add(id(k))
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
            continue
        rp = os.path.join(out, 'replay', '%s_%d.json' % (prop, n))
        n += 1
        with open(rp, 'w') as f:
            json.dump(dict(v, property=prop), f, indent=1, default=str)
        print('  %s %s: %s' % (v['harness'], json.dumps(v['params']), v['msg']))
        print('  inputs %s (%s)' % (json.dumps(v['inputs'])[:600], v['origin']))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        rc = 1
    wall = time.monotonic() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(wall, 2), violations=n + (1 if crash else 0),
              coverage=dict(
                  states=int(agg.get('paths', 0)), transitions=int(agg.get('forks', 0)),
                  traces_validated_against_impl=ok, replays=rep,
                  exhaustive=not (incomplete or skipped or errs or crash),
                  jobs=njobs, jobs_skipped=skipped, bounds=[r['job'] for r in results],
                  functions_encoded=sorted(funcs), assertions_discharged=int(agg.get('discharged', 0)),
                  assertion_texts=msgs,
                  solver_queries=int(agg.get('queries', 0)), solver_time_s=round(agg.get('solver_s', 0.0), 2),
                  unknown=int(agg.get('unknown', 0)), unknown_assertions=unk, paths_given_up=limits, paths_infeasible=int(agg.get('aborted', 0)),
                  paths_unexplored=int(agg.get('unexplored', 0)), incomplete_jobs=incomplete, cvc5_cross_check=crosst,
                  unconfirmed_counterexamples=len(unconf), engine_errors=sorted(errs)[:20],
                  samples=samples[:5]),
              assumptions=getattr(h, 'ASSUMPTIONS', []) + [
                  'Python floats are modelled as exact reals (rounding only through the replays and the tolerance 1e-6)',
                  'third-party functions are replaced by the models of symex/stubs.py and symex/symnp.py, validated by replaying path witnesses on the real libraries'])
    with open(os.path.join(out, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    c = ev['coverage']
    print('%s %s: %d paths, %d branches, %d assertions discharged, %d queries (%.1f s solver), %d/%d replays ok, %d unknown, %d given up, %d unexplored, %d errors, %d unconfirmed, %.1f s%s'
          % (prop, tier, c['states'], c['transitions'], c['assertions_discharged'], c['solver_queries'], c['solver_time_s'], ok, rep, c['unknown'],
             sum(limits.values()), c['paths_unexplored'], len(errs), len(unconf), wall, '' if c['exhaustive'] else ' INCOMPLETE'))
    if not rc and incomplete and not a.v:
        print('  incomplete: ' + '; '.join(incomplete[:4])[:400])
    sys.exit(rc)


if __name__ == '__main__':
    main()
