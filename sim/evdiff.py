'''
For working on the event model: runs a seed of C16 and prints the events that the data collector and the model count
differently, with what each counted.     usage: evdiff.py PROFILE SEED [MAX]
'''
import sys

import worker
import recorder
from profiles import PROFILES
from privcount import counter

real = counter.SecureCounters.increment
log = []
last = {}
SHOWN = [0]
LIMIT = int(sys.argv[3]) if len(sys.argv) > 3 else 6


def clamp(x):
    # what a ratio with nothing on one side is, is not specified beyond its size
    return max(-1000.0, min(1000.0, float(x)))


def increment(self, name, bin=float("nan"), inc=1):
    if self.counters is not None and name in self.counters and int(inc):
        log.append((str(name), None if len(self.counters[name]['bins']) == 1 else clamp(bin), int(inc)))
    return real(self, name, bin=bin, inc=inc)


def flush():
    if last and SHOWN[0] < LIMIT:
        want = sorted((str(n), None if v is None else clamp(v), int(i)) for n, v, i in last['out'] if int(i))
        got = sorted(x for x in log)
        if want != got:
            SHOWN[0] += 1
            sys.stderr.write('%s\n  not counted: %s\n  counted too: %s\n' % (
                last['line'], [x for x in want if want.count(x) > got.count(x)][:5],
                [x for x in got if got.count(x) > want.count(x)][:5]))
    del log[:]
    last.clear()


count = recorder.Recorder.count_event


def count_event(self, node, line):
    flush()
    col = self.current.get(node.name)
    if col is None or col.inc != node.incarnation or col.ended is not None:
        return count(self, node, line)
    col.rotate(node.clock())
    orig = col.model.event
    col.model.event = lambda l: last.update(line=l, out=orig(l)) or last['out']
    count(self, node, line)
    col.model.event = orig


recorder.Recorder.count_event = count_event
counter.SecureCounters.increment = increment
p = PROFILES[sys.argv[1]]()
worker.run_plan(p, p.gen(int(sys.argv[2]), 'quick'))
flush()
worker.cleanup()
