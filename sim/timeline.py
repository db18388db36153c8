'''
timeline.py PROFILE SEED|FILE [FROM TO]   prints what happened in one run: protocol messages, exits, files, operations
'''
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import worker
import boot
from profiles import PROFILES


def main():
    prof = PROFILES[sys.argv[1]]()
    if os.path.exists(sys.argv[2]):
        plan = json.load(boot.real_open(sys.argv[2]))
        plan = plan.get('plan', plan)
    else:
        plan = prof.gen(int(sys.argv[2]), 'quick')
    lo, hi = (float(sys.argv[3]), float(sys.argv[4])) if len(sys.argv) > 4 else (0, 1e9)
    keep = []
    res = worker.run_plan(prof, plan, keep)
    c = keep[0]
    ev = [(m.t, 'MSG %s %s->%s%s %s%s' % (m.conn, m.src, m.dst, ' R%d' % m.round.n if m.round else '',
                                          m.text[:int(os.environ.get('W', '110'))],
                                          ' [got %.3f]' % m.got if m.got else ' [LOST]'))
          for m in c.rec.msgs if not m.kind.startswith('HANDSHAKE')]
    ev += [(e[0], 'EXIT %s inc %d %s %s' % e[1:]) for e in c.rec.exits]
    ev += [(f[0], 'FILE %s %s' % (f[1], f[3])) for f in c.rec.files]
    ev += [(o['t'], 'OP %s' % json.dumps(o, sort_keys=True)) for o in plan['ops'] if 't' in o]
    for t, s in sorted(ev):
        if lo <= t <= hi and not (' STATUS ' in s and not os.environ.get('ST')) and 'CHECKIN' not in s:
            print '%9.3f %s' % (t, s)
    for x in res['violations'][:10]:
        print x
    for u in c.world.unhandled[:5]:
        print u[0], u[1], u[2], u[3][-800:]
    print res['hash'], res.get('harness', '')


try:
    main()
finally:
    worker.cleanup()
