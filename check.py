#!/usr/bin/python3
'''
check.py PROPERTY [--tier quick|thorough] [--runs N]      decide one property by seeded simulation
check.py PROPERTY --replay FILE                           run one replay file again

Exit 0: no violation in anything explored.  Exit 1 with "VIOLATION property=<id> replay=<path>": violated.
Exit 2: the check itself failed (no verdict).
'''
import argparse
import collections
import json
import os
import queue
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from budget import RUNS, META, COMPONENTS, ASSUMPTIONS

JOBS = int(os.environ.get('VERIF_JOBS', '8'))
JY = os.path.join(HERE, 'sim', 'jy.sh')
WORKER = os.path.join(HERE, 'sim', 'worker.py')
RUN_LIMIT = 240         # seconds of real time for one simulated run


class HarnessFailure(Exception):
    pass


class Worker(object):
    'one Jython process that answers jobs'

    def __init__(self, prop, tier, scratch, n):
        env = dict(os.environ, TMPDIR=scratch)
        if tier == 'thorough':
            env.setdefault('JVM_TIER', ' -Dverif=1')    # long-lived: let the JVM optimise fully
        self.err = open(os.path.join(scratch, 'worker%d.err' % n), 'wb')
        self.p = subprocess.Popen(['bash', JY, WORKER, 'serve', prop, tier], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err, env=env, cwd=scratch)
        self.n = n

    def ask(self, job):
        timer = threading.Timer(RUN_LIMIT, self.p.kill)
        timer.start()
        try:
            self.p.stdin.write((json.dumps(job) + '\n').encode())
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            line = b''
        finally:
            timer.cancel()
        if not line:
            self.p.kill()
            self.p.wait()
            self.err.flush()
            with open(self.err.name, 'rb') as f:
                tail = f.read()[-1500:].decode('utf8', 'replace')
            raise HarnessFailure('worker ended on %s: %s' % (json.dumps(job)[:200], tail))
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(20)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        self.err.close()


def run_jobs(prop, tier, jobs, scratch, nworkers, stop_on=None):
    'runs jobs on a pool; returns results by index (a violation stops the hand-out of later jobs)'
    todo = queue.Queue()
    for j in jobs:
        todo.put(j)
    results, errors, lock, stop = {}, [], threading.Lock(), threading.Event()

    def loop(n):
        w = None
        while not stop.is_set():
            try:
                job = todo.get_nowait()
            except queue.Empty:
                break
            for attempt in (0, 1):
                try:
                    if w is None:
                        w = Worker(prop, tier, scratch, n)
                    r = w.ask(job)
                    break
                except HarnessFailure as e:
                    w = None
                    r = None
                    if attempt:
                        with lock:
                            errors.append(str(e))
                        stop.set()
            if r is None:
                break
            with lock:
                results[job['index']] = r
            if stop_on is not None and stop_on(r):
                stop.set()
        if w is not None:
            w.close()

    ts = [threading.Thread(target=loop, args=(n,)) for n in range(min(nworkers, len(jobs)))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return results, errors


def load_known(prop):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]


def is_known(known, x):
    for k in known:
        if k['kind'] == x['kind'] and re.search(k.get('match', ''), x['text']):
            return k
    return None


def minimise(prop, plan, kind, budget, scratch):
    src, out = os.path.join(scratch, 'min.in'), os.path.join(scratch, 'min.out')
    with open(src, 'w') as f:
        json.dump(plan, f)
    try:
        subprocess.run(['bash', JY, WORKER, 'minimise', prop, out, src, kind, str(budget)], cwd=scratch,
                       env=dict(os.environ, TMPDIR=scratch), timeout=400, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL)
        with open(out) as f:
            return json.load(f)
    except (subprocess.TimeoutExpired, OSError, ValueError):
        return None


def one_plan(prop, plan, scratch):
    r, e = run_jobs(prop, 'quick', [{'index': 0, 'plan': plan, 'want_plan': True}], scratch, 1)
    if e:
        raise HarnessFailure(e[0])
    return r[0]


def replay_file(prop, path):
    with open(path) as f:
        rep = json.load(f)
    scratch = tempfile.mkdtemp(prefix='vcheck-')
    try:
        r = one_plan(prop, rep['plan'], scratch)
    finally:
        shutil.rmtree(scratch, True)
    kinds = sorted(set(x['kind'] for x in r['violations']))
    print('replay of %s: hash %s (recorded %s), violations %s' % (path, r['hash'][:16], rep['hash'][:16], kinds))
    for x in r['violations'][:10]:
        print('  %10.3f %s: %s' % (x['t'], x['kind'], x['text']))
    if r.get('harness'):
        print(r['harness'])
        return 2
    same = r['hash'] == rep['hash'] and rep['kind'] in kinds
    print('reproduced exactly' if same else 'NOT reproduced (the code under test differs?)')
    if rep['kind'] in kinds:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0


def setup():
    scratch = tempfile.mkdtemp(prefix='vcheck-')
    try:
        r, e = run_jobs('C01', 'quick', [{'index': 0, 'seed': 1}], scratch, 1)
        if e or r[0].get('harness'):
            print('ERROR: %s' % (e or r[0]['harness']))
            return 2
        print('one run: %d steps, %.0f simulated seconds' % (r[0]['steps'], r[0]['sim']))
        return 0
    finally:
        shutil.rmtree(scratch, True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--all', action='store_true', help='do not stop at the first violation')
    ap.add_argument('--setup', action='store_true', help='check that simulated processes run here')
    a = ap.parse_args()
    if a.setup:
        return setup()
    prop = a.prop
    if a.replay:
        return replay_file(prop, os.path.abspath(a.replay))
    t0 = time.time()
    vseed = int(os.environ.get('VERIF_SEED', '1') or '1')
    n = a.runs or RUNS[prop][0 if a.tier == 'quick' else 1]
    known = load_known(prop)
    jobs = []
    # fixed scenarios first: one per listed finding, so that it is met on every run
    for k in known:
        if k.get('plan'):
            with open(os.path.join(HERE, k['plan'])) as f:
                jobs.append({'index': -1 - len(jobs), 'plan': json.load(f)['plan']})
    jobs += [{'index': i, 'seed': vseed * 1000003 + i} for i in range(n)]

    def bad(r):
        return any(not is_known(known, x) for x in r['violations'])

    scratch = tempfile.mkdtemp(prefix='vcheck-')
    try:
        results, errors = run_jobs(prop, a.tier, jobs, scratch, JOBS, None if a.all else bad)
        if errors:
            print('ERROR: %s' % errors[0])
            return 2
        broken = [i for i in sorted(results) if results[i].get('harness')]
        if broken and not any(bad(r) for r in results.values() if not r.get('harness')):
            print('ERROR: harness failure on index %d: %s' % (broken[0], results[broken[0]]['harness']))
            return 2
        results = dict((i, r) for i, r in results.items() if not r.get('harness'))
        # determinism: the same seeds in other processes, in another order, give the same executions
        failing = [i for i in sorted(results) if bad(results[i])]
        again = 0
        if not failing:
            pick = [j for j in jobs if j['index'] >= 0][:: max(1, n // 6)][:6]
            second, errors = run_jobs(prop, a.tier, list(reversed(pick)), scratch, 3)
            if errors:
                print('ERROR: %s' % errors[0])
                return 2
            for i, r in second.items():
                again += 1
                if r['hash'] != results[i]['hash']:
                    print('ERROR: index %d is not deterministic: %s %s' % (i, r['hash'], results[i]['hash']))
                    return 2
        replay = None
        if failing:
            replay = report(prop, results, failing, known, scratch)
            if replay is None:
                return 2
        write_evidence(prop, a.tier, vseed, results, failing, again, time.time() - t0)
        hit = set()
        for r in results.values():
            for x in r['violations']:
                k = is_known(known, x)
                if k is not None:
                    hit.add(k['id'])
        for k in known:
            if k['id'] in hit:
                print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
        if failing:
            print('VIOLATION property=%s replay=%s' % (prop, replay))
            return 1
        print('%s: %d runs, no violation (%.0f s)' % (prop, len(results), time.time() - t0))
        return 0
    finally:
        shutil.rmtree(scratch, True)


def report(prop, results, failing, known, scratch):
    i = failing[0]
    r = results[i]
    x = [x for x in r['violations'] if not is_known(known, x)][0]
    plan = r['plan']
    small = None if os.environ.get('VERIF_NOMIN') else minimise(prop, plan, x['kind'], 40, scratch)
    final = None
    if small is not None:
        # a fresh process must reproduce it
        chk = one_plan(prop, small['plan'], scratch)
        if any(y['kind'] == x['kind'] and not is_known(known, y) for y in chk['violations']):
            final, plan = chk, small['plan']
    if final is None:
        plan = r['plan']
        final = one_plan(prop, plan, scratch)
        if final['hash'] != r['hash']:
            print('ERROR: index %d did not reproduce' % i)
            return None
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (prop, r.get('seed', i)))
    ys = [y for y in final['violations'] if not is_known(known, y)]
    with open(path, 'w') as f:
        json.dump({'property': prop, 'kind': x['kind'], 'seed': r.get('seed'), 'hash': final['hash'], 'plan': plan,
                   'violations': ys[:20], 'original_ops': len(r['plan'].get('ops', [])),
                   'ops': len(plan.get('ops', [])),
                   'replay_cmd': 'python3 /verif/check.py %s --replay %s' % (prop, path)}, f, indent=1, sort_keys=True)
    for y in ys[:3]:
        print('  %10.3f %s: %s' % (y['t'], y['kind'], y['text']))
    return path


def write_evidence(prop, tier, vseed, results, failing, again, wall):
    stats, probes, tags = collections.Counter(), collections.Counter(), collections.Counter()
    sim = steps = 0
    for r in results.values():
        stats.update(r['stats'])
        probes.update(r['probes'])
        tags.update(r.get('tags', []))
        sim += r['sim']
        steps += r['steps']
    meta = META[prop]
    need = meta.get('probe')
    good = [r for r in results.values() if need is None or r['probes'].get(need, 0) > 0]
    sigs = set(r['sig'] for r in good)
    samples = [{'index': i, 'seed': results[i]['seed'], 'hash': results[i]['hash'][:16],
                'steps': results[i]['steps'], 'sim_s': results[i]['sim'], 'tags': results[i].get('tags', []),
                'probes': results[i]['probes']} for i in sorted(results)[:5]]
    faults = {k: v for k, v in sorted(stats.items())
              if k.startswith(('op.', 'fs.', 'tor.', 'net.', 'adv.', 'noop.')) and v}
    ev = {'property': prop, 'tier': tier, 'seed': vseed, 'level': 'exploration',
          'coverage': {
              'evaluations': len(results),
              'distinct_nontrivial': len(sigs),
              'rule': meta['rule'] + (' Non-trivial: probe "%s" is above zero. Distinct: by a hash of the order of'
                                      ' protocol messages, process exits and commands (no times, no payloads).'
                                      % need if need else ''),
              'samples': samples,
              'runs_per_hour': int(3600 * len(results) / max(wall, 0.1)),
              'simulated_seconds': round(sim, 1), 'simulated_steps': steps,
              'distinct_executions': len(set(r['hash'] for r in results.values())),
              'faults_and_operations': faults, 'fault_kinds_per_plan': dict(tags), 'probes': dict(probes),
              'reproduced_in_second_process': again,
              'components': COMPONENTS, 'exhaustive': False},
          'assumptions': ASSUMPTIONS + meta.get('assumptions', []),
          'wall_s': round(wall, 1), 'violations': len(failing)}
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.rename(tmp, os.path.join(d, prop + '.json'))


if __name__ == '__main__':
    sys.exit(main())
