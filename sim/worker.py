'''
Runs simulations in one Jython process.

  worker.py run PROFILE TIER OUT SEED...          one line of JSON per seed
  worker.py serve PROFILE TIER                    jobs as JSON lines on stdin, results on stdout
  worker.py plan PROFILE OUT FILE                 run the plan(s) in FILE (JSON list)
  worker.py minimise PROFILE OUT FILE KIND BUDGET shrink the plan in FILE keeping a violation of KIND
'''
import json
import os
import shutil
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot
from simcore import HarnessError
from cluster import Cluster
from profiles import PROFILES

# whatever the code under test prints must not mix with the results
OUT = sys.stdout
if len(sys.argv) > 1 and sys.argv[1] == 'serve':
    sys.stdout = sys.stderr


# the same name in every worker (jy.sh made the directory and started us there)
RUNDIR = '/proc/self/cwd/r'


def cleanup():
    shutil.rmtree(os.environ['SIM_SCRATCH'], True)


def run_plan(prof, plan, keep=None):
    d = RUNDIR
    shutil.rmtree(d, True)
    os.makedirs(d)
    # os.chdir would resolve the name
    sys.setCurrentWorkingDir(d)
    t = boot.real_time()
    # a private copy: faults count down inside the plan
    plan = json.loads(json.dumps(plan))
    c = getattr(prof, 'cluster', Cluster)(plan, d, verbose=bool(os.environ.get('SIM_TRACE')))
    res = {'seed': plan['seed'], 'tags': plan.get('tags', [])}
    try:
        prof.attach(c)
        c.run()
        vs = prof.check(c)
        res['violations'] = c.violations + vs
        res['probes'] = prof.probes(c)
    except HarnessError as e:
        res['harness'] = '%s\n%s' % (e, traceback.format_exc())
        res['violations'] = []
        res['probes'] = {}
    w = c.world
    res.update(hash=w.hash.hexdigest(), steps=w.steps, sim=round(w.now, 3), stats=w.stats,
               wall=round(boot.real_time() - t, 3), sig=c.signature())
    if keep is not None:
        keep.append(c)
    sys.setCurrentWorkingDir('/')
    return res


def kinds(res):
    return set(x['kind'] for x in res['violations'])


def minimise(prof, plan, kind, budget):
    'greedy delta debugging over the operations, then over the parameters that can be simplified'
    spent, limit = [0], boot.real_time() + 75

    def bad(p):
        if spent[0] >= budget or boot.real_time() > limit:
            return False
        spent[0] += 1
        r = run_plan(prof, p)
        return 'harness' not in r and kind in kinds(r)

    def copy(p):
        return json.loads(json.dumps(p))

    ops = plan['ops']
    n = 2
    while len(ops) >= 1 and spent[0] < budget:
        size = max(1, len(ops) // n)
        for i in range(0, len(ops), size):
            q = copy(plan)
            q['ops'] = ops[:i] + [o for o in ops[i:i + size] if o.get('keep')] + ops[i + size:]
            if len(q['ops']) < len(ops) and bad(q):
                plan, ops = q, q['ops']
                n = max(n - 1, 2)
                break
        else:
            if size == 1:
                break
            n = min(len(ops), n * 2)
    for key, val in (('net', {'lat': [0.01, 0.02], 'chunk': 0}), ('boot', {})):
        if plan.get(key) != val:
            q = copy(plan)
            q[key] = val
            if bad(q):
                plan = q
    # fewer collectors and keepers, when no operation names them
    for key, pre in (('dcs', 'dc'), ('sks', 'sk')):
        while len(plan[key]) > 1:
            q = copy(plan)
            q[key] = q[key][:-1]
            if any(str(o).find("%s%d'" % (pre, len(q[key]))) >= 0 or str(o).find("tor%d'" % len(q[key])) >= 0
                   for o in q['ops']):
                break
            if not bad(q):
                break
            plan = q
    while len(plan['counters']) > 1:
        half = len(plan['counters']) // 2
        for part in (plan['counters'][:half], plan['counters'][half:]):
            q = copy(plan)
            q['counters'] = part
            if bad(q):
                plan = q
                break
        else:
            break
    return plan, spent[0]


def main(argv):
    cmd, pid = argv[0], argv[1]
    prof = PROFILES[pid]()
    try:
        if cmd == 'run':
            tier, out = argv[2], argv[3]
            with boot.real_open(out, 'w') as f:
                for s in argv[4:]:
                    plan = prof.gen(int(s), tier)
                    res = run_plan(prof, plan)
                    res['index'] = int(s)
                    if res['violations'] or 'harness' in res:
                        res['plan'] = plan
                    f.write(json.dumps(res, sort_keys=True) + '\n')
                    f.flush()
        elif cmd == 'serve':
            tier = argv[2]
            while True:
                line = sys.stdin.readline()
                if not line:
                    break
                job = json.loads(line)
                try:
                    plan = job.get('plan') or prof.gen(job['seed'], tier)
                    res = run_plan(prof, plan)
                except Exception as e:
                    # an oracle or the generator itself failed: the harness is at fault
                    plan = job.get('plan')
                    res = {'harness': '%r\n%s' % (e, traceback.format_exc()), 'violations': [], 'probes': {},
                           'seed': job.get('seed'), 'stats': {}, 'hash': '', 'steps': 0, 'sim': 0, 'wall': 0,
                           'sig': '', 'tags': []}
                res['index'] = job['index']
                if res['violations'] or 'harness' in res or job.get('want_plan'):
                    res['plan'] = plan
                OUT.write(json.dumps(res, sort_keys=True) + '\n')
                OUT.flush()
        elif cmd == 'plan':
            plans = json.loads(boot.real_open(argv[3]).read())
            if isinstance(plans, dict):
                plans = [plans]
            with boot.real_open(argv[2], 'w') as f:
                for p in plans:
                    f.write(json.dumps(run_plan(prof, p), sort_keys=True) + '\n')
        elif cmd == 'minimise':
            plan = json.loads(boot.real_open(argv[3]).read())
            small, n = minimise(prof, plan, argv[4], int(argv[5]))
            res = run_plan(prof, small)
            with boot.real_open(argv[2], 'w') as f:
                f.write(json.dumps({'plan': small, 'runs': n, 'result': res}, sort_keys=True))
    finally:
        cleanup()


if __name__ == '__main__':
    main(sys.argv[1:])
