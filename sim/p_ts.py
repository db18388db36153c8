'''
C08: rounds start only when the deployment is ready, one at a time, and run for their period; C13: lost and stale clients.
C09: after faults stop, the deployment recovers by itself.

The tally server is followed by an executable model of what it was told: the status messages it read, the configuration
files it read, and the outcomes it wrote.
'''
import calendar
import time

import yaml

import gen
import oracles
from oracles import v
from profile import Profile, round_probes
from simcore import EPOCH

JITTER = 1.0            # what the tally server adds to a round trip time


def settings(text):
    c = dict((yaml.safe_load(text) or {}).get('tally_server', {}))
    p = c['collect_period']
    c['event_period'] = min(c.get('event_period', 600), p // 2)
    c['checkin_period'] = min(c.get('checkin_period', 600), p // 2)
    return c


def after_time(conf):
    s = conf.get('start_after')
    if s is None:
        return 0.0
    if not isinstance(s, str):
        return float(calendar.timegm(s.timetuple()))
    return float(calendar.timegm(time.strptime(s, '%Y-%m-%dT%H:%M:%SZ')))


def allowed(conf):
    'how many rounds the operator asked for, None for no limit'
    k = conf.get('continue', False)
    if k is True:
        return None
    return 1 if k is False else int(k)


class Client(object):
    def __init__(self):
        self.alive = self.rtt = None
        self.state = self.kind = self.name = None


class Phase(object):
    'a round as the status messages of the tally server name it: by the time it started'

    def __init__(self, t0):
        self.t0, self.t1 = t0, None
        self.period = None
        self.participants = None
        self.answered = set()
        self.shares = {}
        self.restarted = False


class Server(object):
    'one run of the tally server process, replayed from what it read and wrote'

    def __init__(self, c, inc):
        self.c, self.inc = c, inc
        rec = c.rec
        self.reads = []
        for t, node, n, base, text, clock in rec.reads:
            if node == 'ts' and n == inc and base == 'ts.yaml':
                try:
                    self.reads.append((clock, settings(text), rec.ticks['read', node, n, base, clock]))
                except Exception:
                    continue
        ev = []
        for m in rec.msgs:
            if m.src == 'ts' and m.inc == inc:
                ev.append((m.tick, 'sent', m, m.clock))
            if m.dst == 'ts' and m.got_inc == inc:
                ev.append((m.got_tick, 'read', m, m.got_clock))
        self.events = sorted(ev, key=lambda e: e[0])
        self.outcomes = [(clock, base, t, rec.ticks['file', n, base]) for t, node, clock, base, rnd, n in rec.files
                         if node == 'ts' and base.startswith('privcount.outcome') and n == inc]
        starts = set(m.data['time'] for _, k, m, _ in self.events
                     if k == 'sent' and m.kind == 'STATUS' and m.data.get('state') == 'active')
        self.phases = [self.phase(t0) for t0 in sorted(starts)]
        # a round that the server did not live to tell of
        for k, what, m, clock in self.events:
            if what != 'sent' or m.kind != 'START' or any(p.k0 < k and (p.k1 is None or p.k1 > k) for p in self.phases):
                continue
            last = [x for x in self.reads if x[2] < k]
            if last and not any(w == 'sent' and x.kind == 'STATUS' and last[-1][2] < kk for kk, w, x, _ in self.events
                                if kk < k):
                self.phases.append(self.phase(last[-1][0]))
        self.phases.sort(key=lambda p: p.k0)

    def phase(self, t0):
        p = Phase(t0)
        # it starts in the refresh that read the configuration at that time
        at = [x[2] for x in self.reads if abs(x[0] - t0) < 1e-6]
        p.k0 = at[-1] if at else max([0] + [e[0] for e in self.events if e[3] < t0]) + 0.5
        ends = [x for x in self.outcomes if x[3] > p.k0]
        p.t1, p.k1 = (ends[0][0], ends[0][3]) if ends else (None, None)
        return p

    def conf(self, tick):
        got = [x for _, x, k in self.reads if k <= tick]
        return got[-1] if got else None


def follow(c, inc, slack):
    s = Server(c, inc)
    out, st = [], c.ts_stats
    if not s.reads:
        return out
    first = s.reads[0][1]
    ev = first['event_period']
    boot = s.reads[0][0]
    clients = {}
    last_sent = {}          # connection -> clock of the last STATUS sent on it
    await_stop = {}         # connection -> why the next message on it has to be a STOP
    phases = list(s.phases)
    phase = None
    since = None            # when everything a round needs was there
    done = []
    started = 0
    names = dict((n.name, n) for n in c.sks + c.dcs)

    def idle(kind, clock, ck, grace):
        return sorted(x.node for x in clients.values()
                      if x.kind == kind and x.state == 'idle' and clock - x.alive <= 7 * ck + x.rtt + grace)

    def total(kind, clock, ck, grace):
        return sum(1 for x in clients.values() if x.kind == kind and x.state in ('idle', 'active')
                   and clock - x.alive <= 7 * ck + x.rtt + grace)

    def ready(clock, conf, grace):
        if after_time(conf) > clock:
            return False
        k = allowed(conf)
        if k is not None and len(done) >= k:
            return False
        ck = conf['checkin_period']
        return (len(idle('DataCollector', clock, ck, grace)) >= conf['dc_threshold'] and
                len(idle('ShareKeeper', clock, ck, grace)) >= conf['sk_threshold'])

    def open_phase(tick):
        'the rounds that started, or ended, up to this time'
        ended = None
        while True:
            nxt = phases[0] if phases else None
            if s_phase[0] is not None and s_phase[0].k1 is not None and s_phase[0].k1 < tick and (
                    nxt is None or s_phase[0].k1 < nxt.k0):
                done.append(s_phase[0])
                ended = s_phase[0].t1
                s_phase[0] = None
                continue
            if nxt is not None and nxt.k0 < tick:
                phases.pop(0)
                begin(nxt)
                s_phase[0] = nxt
                continue
            break
        return ended

    s_phase = [None]

    def begin(p):
        t = p.t0
        conf = s.conf(p.k0)
        st['ts.starts'] += 1
        if s_phase[0] is not None:
            out.append(v('two-rounds', t - EPOCH, 'a round started at %r while the round of %r was in progress'
                         % (t, s_phase[0].t0)))
            done.append(s_phase[0])
        ck = conf['checkin_period']
        dcs, sks = idle('DataCollector', t, ck, JITTER + 1e-3), idle('ShareKeeper', t, ck, JITTER + 1e-3)
        p.period = conf['collect_period']
        p.idle = set(dcs + sks)
        p.idle_sks = set(x.name for x in clients.values() if x.node in sks)
        if len(dcs) < conf['dc_threshold'] or len(sks) < conf['sk_threshold']:
            out.append(v('started-unready', t - EPOCH, 'a round started with %s and %s idle, %d and %d needed'
                         % (dcs, sks, conf['dc_threshold'], conf['sk_threshold'])))
        if after_time(conf) > t + 1e-6:
            out.append(v('started-early', t - EPOCH, 'a round started %.1f s before the configured time'
                         % (after_time(conf) - t)))
        k = allowed(conf)
        if k is not None and len(done) >= k:
            out.append(v('started-too-many', t - EPOCH, 'round %d started, %d were asked for' % (len(done) + 1, k)))

    for tick, what, m, clock in s.events:
        ended = open_phase(tick)
        phase = s_phase[0]
        conf = s.conf(tick)
        if conf is None:
            continue
        ck = conf['checkin_period']
        # a round has to start once it can
        if phase is not None:
            since = None
        else:
            ok = ready(clock, conf, 0.0)
            if ended is not None or not ok:
                since = None
            if ok and since is None:
                since = clock
                st['ts.ready'] += 1
            # (only what it says itself tells whether a round has started)
            if since is not None and clock - since > ev + slack and clock - boot > ev + slack and what == 'sent' and (
                    m.kind == 'STATUS'):
                out.append(v('not-started', m.t, 'no round started %.1f s after everything was ready' % (clock - since)))
                since = clock + 1e9
        if what == 'sent':
            if m.kind == 'STATUS':
                last_sent[m.conn] = clock
                d = m.data
                if 'dcs_total' in d:
                    for key, kind in (('dcs', 'DataCollector'), ('sks', 'ShareKeeper')):
                        lo = total(kind, clock, ck, 0.0)
                        hi = total(kind, clock, ck, JITTER + ev + slack)
                        st['ts.totals'] += 1
                        n = d[key + '_idle'] + d[key + '_active']
                        if n != d[key + '_total']:
                            out.append(v('count-inconsistent', m.t, 'the tally server counts %s' % sorted(d.items())))
                        if n < lo:
                            out.append(v('forgotten-early', m.t, 'the tally server counts %d %s clients, %d checked in'
                                         ' recently' % (n, kind, lo)))
                        if n > hi:
                            out.append(v('dead-kept', m.t, 'the tally server counts %d %s clients, only %d checked in'
                                         ' recently' % (n, kind, hi)))
                        if hi < sum(1 for x in clients.values() if x.kind == kind):
                            st['ts.expired'] += 1
                    if d.get('completed_phases') is not None and d['completed_phases'] != len(done):
                        out.append(v('rounds-miscounted', m.t, 'the tally server says %s rounds are complete, it wrote %d'
                                     ' outcomes' % (d['completed_phases'], len(done))))
            why = await_stop.pop(m.conn, None) if m.kind in ('STOP', 'START', 'CHECKIN') else None
            if why is not None and m.kind != 'STOP':
                out.append(v(why[0], m.t, 'the tally server answered %s with %s: %s' % (m.dst, m.kind, why[1])))
            if why is not None and why[0] == 'stale-kept' and m.kind == 'STOP' and m.data.get('send_counters'):
                out.append(v('stale-asked', m.t, 'the tally server asked %s for counts of a round it does not run' % m.dst))
            if m.kind == 'START':
                if phase is None:
                    out.append(v('start-outside', m.t, 'the tally server sent START to %s outside rounds' % m.dst))
                elif m.dst not in phase.idle:
                    out.append(v('start-busy', m.t, '%s was started in the round of %r, when that started it was not'
                                 ' idle and alive' % (m.dst, phase.t0)))
                elif 'sharekeepers' in m.data and set(m.data['sharekeepers']) != phase.idle_sks:
                    out.append(v('start-sks', m.t, 'the share keepers of the round are %s, %s were idle'
                                 % (sorted(x[:8] for x in m.data['sharekeepers']),
                                    sorted(x[:8] for x in phase.idle_sks))))
            elif m.kind == 'STOP':
                if phase is None:
                    st['ts.stale_stops'] += 1
                else:
                    if m.dst not in phase.idle:
                        out.append(v('stop-outsider', m.t, '%s is told to stop in a round it is not in' % m.dst))
                    if clock < phase.t0 + phase.period - 1e-6 and not phase.restarted:
                        out.append(v('stopped-early', m.t, 'the round of %r is stopped %.1f s before its end'
                                     % (phase.t0, phase.t0 + phase.period - clock)))
            continue
        # read by the tally server
        if m.kind == 'STATUS':
            d = m.as_got
            cl = clients.setdefault(d.get('name'), Client())
            cl.node, cl.name, cl.kind, cl.state = m.src, d.get('name'), d.get('type'), d.get('state')
            cl.rtt = clock - last_sent.pop(m.conn) if last_sent.get(m.conn) else 0.0
            cl.alive = clock
            if phase is None:
                if cl.state == 'active':
                    st['ts.stale'] += 1
                    await_stop[m.conn] = ('stale-kept', 'it is collecting and no round is in progress')
            elif m.src in phase.idle and m.src not in phase.answered and clock > phase.t0 + phase.period + ev + slack:
                st['ts.expired_rounds'] += 1
                await_stop[m.conn] = ('not-stopped', 'the round of %r should have ended %.1f s ago'
                                      % (phase.t0, clock - phase.t0 - phase.period))
        elif m.kind == 'START SUCCESS' and phase is not None and m.src.startswith('dc'):
            if phase.shares.get(m.src):
                phase.restarted = True
            phase.shares[m.src] = True
        elif m.kind == 'STOP SUCCESS' and phase is not None:
            phase.answered.add(m.src)
        elif m.kind == 'STOP FAIL' and phase is not None:
            pass
    return out


def once(c):
    'a client is in one collection at a time, and a stop ends it'
    out = []
    state = {}
    asked = {}
    ev = []
    for m in c.rec.msgs:
        if m.src in c.world.nodes and c.world.nodes[m.src].kind in ('sk', 'dc'):
            ev.append((m.tick, 'sent', m))
        if m.got is not None and c.world.nodes[m.dst].kind in ('sk', 'dc'):
            ev.append((m.got_tick, 'read', m))
    for tick, what, m in sorted(ev, key=lambda e: e[0]):
        if what == 'read':
            if m.kind == 'START':
                asked[m.dst] = m
            continue
        n, inc = m.src, m.inc
        if state.get(n, (inc, None))[0] != inc:
            state[n] = (inc, None)
        on = state.get(n, (inc, None))[1]
        if m.kind == 'START SUCCESS':
            rnd = asked[n].round
            if on is not None and (n.startswith('dc') or on[0] is not rnd):
                out.append(v('started-twice', m.t, '%s started a collection while it was in one' % n))
            state[n] = (inc, (rnd, m))
        elif m.kind in ('STOP SUCCESS', 'STOP FAIL'):
            state[n] = (inc, None)
            if m.kind == 'STOP FAIL':
                out.append(v('stop-failed', m.t, '%s did not stop' % n))
        elif m.kind == 'STATUS':
            want = 'active' if state.get(n, (inc, None))[1] is not None else 'idle'
            if m.data.get('state') != want:
                out.append(v('state-wrong', m.t, '%s says it is %s, it is %s' % (n, m.data.get('state'), want)))
    return out


def stats(c):
    c.ts_stats = dict(('ts.' + k, 0) for k in ('starts', 'totals', 'expired', 'stale', 'stale_stops', 'expired_rounds',
                                                'ready'))


def servers(c):
    out = []
    slack = 0.6 + sum(o.get('d', 0) for o in c.plan['ops'] if o['op'] == 'stall') + sum(
        o.get('by', 0) for o in c.plan['ops'] if o['op'] == 'clock' and o.get('node') == 'ts')
    for inc in sorted(set(n for t, node, n, base, text, clock in c.rec.reads if node == 'ts')):
        out += follow(c, inc, slack)
    return out


class C08(Profile):
    id = 'C08'

    def gen(self, seed, tier):
        r = self.rng(seed)
        p = gen.base(r, seed, counters=gen.sample(r, gen.FIXED, 1 + int(r.random() * 2)),
                     sks=gen.pick(r, [1, 2, 3]), dcs=gen.pick(r, [1, 2, 3]), rounds=gen.pick(r, [2, 3, 4]))
        p['net']['lat'] = gen.pick(r, [[0.001, 0.05], [0.002, 0.3], [0.05, 1.0]])
        ts = p['ts']
        for d in p['dcs']:
            d['tor']['rate'] = 0.2
        ts['continue'] = gen.pick(r, [True, True, True, False, 0, 1, 2, 3])
        ts['dc_threshold'] = gen.pick(r, range(1, len(p['dcs']) + 1) + [len(p['dcs'])])
        if r.random() < 0.3:
            ts['sk_threshold'] = gen.pick(r, range(1, len(p['sks']) + 1))
        for d in p['dcs']:
            d['weight'] = 1.0
        if r.random() < 0.3:
            ts['event_period'] = gen.pick(r, [1, 2, 7, 9])
        if r.random() < 0.35:
            ts['start_after'] = stamp(gen.uni(r, 0, p['end'] * 0.6, 0))
        spread = gen.pick(r, [6, 6, 30, p['end'] * 0.7])
        for n in list(p['boot']):
            if n.startswith(('sk', 'dc')):
                p['boot'][n] = gen.uni(r, 0, spread)
        for _ in range(gen.pick(r, [0, 0, 1, 2, 4])):
            t = gen.uni(r, 5, p['end'] - 10)
            p['ops'].append({'op': 'conf', 't': t, 'node': 'ts', 'set': gen.pick(r, [
                {'continue': gen.pick(r, [True, False, 0, 1, 2, 4])},
                {'dc_threshold': gen.pick(r, range(1, len(p['dcs']) + 1))},
                {'sk_threshold': gen.pick(r, range(1, len(p['sks']) + 1))},
                {'collect_period': gen.pick(r, [16, 20, 24, 30, 45])},
                {'start_after': gen.pick(r, [None, stamp(round(gen.uni(r, t, p['end'])))])}])})
        if r.random() < 0.6:
            gen.add_faults(r, p, ['kill_dc', 'kill_sk', 'kill_ts', 'reset', 'partition', 'slow', 'clock'],
                           1 + int(r.random() * 4), 2, p['end'] - 15)
        if r.random() < 0.3:
            gen.add_moments(r, p, 1 + int(r.random() * 3))
        p['ops'].sort(key=lambda o: o.get('t', 0))
        return p

    def attach(self, c):
        stats(c)

    def check(self, c):
        return servers(c) + once(c)

    def probes(self, c):
        d = round_probes(c)
        d.update(c.ts_stats)
        return d


def stamp(t):
    return time.strftime('%Y-%m-%dT%H:%M:%SZ', time.gmtime(EPOCH + t))


class C13(Profile):
    id = 'C13'

    def gen(self, seed, tier):
        r = self.rng(seed)
        p = gen.base(r, seed, counters=gen.sample(r, gen.FIXED, 1), rounds=gen.pick(r, [3, 4, 5]))
        for d in p['dcs']:
            d['tor']['rate'] = 0.15
        ck = p['ts']['checkin_period'] = gen.pick(r, [1, 2, 2, 3])
        cl = gen.names(p, 'sk dc')
        for _ in range(gen.pick(r, [1, 2, 3, 5])):
            t, n = gen.uni(r, 4, p['end'] - 15), gen.pick(r, cl)
            d = round(ck * gen.uni(r, 0, 14) + gen.uni(r, 0, 3), 3)
            k = r.random()
            if k < 0.35:
                p['ops'].append({'op': 'kill', 't': t, 'node': n, 'how': gen.pick(r, ['kill', 'power']), 'down': d})
            elif k < 0.75:
                p['ops'].append({'op': 'partition', 't': t, 'nodes': gen.pick(r, [[n, 'ts'], [n], ['ts']]), 'd': d})
            else:
                p['ops'].append({'op': 'slow', 't': t, 'nodes': [n, 'ts'], 'd': d, 'lat': gen.uni(r, 0.5, 12)})
        for _ in range(gen.pick(r, [0, 1, 1, 2])):
            op = {'op': 'kill', 'node': 'ts', 'how': gen.pick(r, ['kill', 'power']), 'down': gen.uni(r, 0.1, 6)}
            if r.random() < 0.6:
                op['on'] = [gen.pick(r, ['START SUCCESS', 'START', 'STOP', 'STOP SUCCESS', 'STATUS']), 1 + int(r.random() * 6),
                            None, None, gen.pick(r, [0.0, 0.01, gen.uni(r, 0, 3), gen.uni(r, 0, 12)])]
            else:
                op['t'] = gen.uni(r, 8, p['end'] - 15)
            p['ops'].append(op)
        if r.random() < 0.2:
            p['ops'].append({'op': 'stall', 't': gen.uni(r, 5, p['end'] - 15), 'node': gen.pick(r, cl), 'd': gen.uni(r, 1, 30)})
        if r.random() < 0.3:
            gen.add_moments(r, p, 1 + int(r.random() * 3))
        p['ops'].sort(key=lambda o: o.get('t', 0))
        return p

    def attach(self, c):
        stats(c)

    def check(self, c):
        return servers(c) + once(c) + oracles.all_or_nothing(c) + oracles.no_reuse(c)

    def probes(self, c):
        d = round_probes(c)
        d.update(c.ts_stats)
        return d


class C09(Profile):
    id = 'C09'
    FAULTS = ['kill_dc', 'kill_sk', 'kill_ts', 'kill_tor', 'reset', 'reset_burst', 'reset_tor', 'partition', 'partition_tor',
              'slow', 'stall', 'clock']

    def gen(self, seed, tier):
        r = self.rng(seed)
        p = gen.base(r, seed, counters=gen.sample(r, gen.FIXED, 1 + int(r.random() * 2)))
        p['ts']['collect_period'] = gen.pick(r, [16, 20])
        for d in p['dcs']:
            d['tor']['rate'] = 0.15
        calm = gen.uni(r, 25, gen.pick(r, [40, 70, 100]))
        gen.add_faults(r, p, self.FAULTS, gen.pick(r, [1, 2, 4, 8, 14]), 1, calm - 1)
        gen.add_moments(r, p, gen.pick(r, [0, 0, 1, 3, 6]))
        if r.random() < 0.2:
            # a participant that leaves for the rest of the faults
            t = gen.uni(r, 5, calm - 2)
            p['ops'].append({'op': 'kill', 't': t, 'node': gen.pick(r, gen.names(p)), 'how': 'kill', 'down': calm})
        if r.random() < 0.15:
            p['boot'][gen.pick(r, gen.names(p, 'ts sk dc'))] = gen.uni(r, 10, calm)
        for o in p['ops']:
            o['until'] = calm
        if any(o['op'] == 'clock' for o in p['ops']):
            p['ops'].append({'op': 'sync', 't': calm, 'keep': True})
        if p['net']['lat'][1] > 0.5:
            # two check-ins of a client in flight at a time can spoil a round (see DESIGN.md)
            p['net']['lat'] = [0.05, 0.4]
        ts = p['ts']
        one = ts['collect_period'] + 2 * ts['event_period'] + 2 * ts['checkin_period'] + 12
        # a client that never checked in retries after up to e times what it waited so far, with jitter
        p['calm'] = calm
        p['bound'] = round(3.5 * calm + 2 * one + 65, 1)
        p['end'] = int(calm + p['bound'] + one) + 2
        p['tags'] = sorted(set(o['op'] for o in p['ops']))
        p['ops'].sort(key=lambda o: o.get('t', 0))
        return p

    def attach(self, c):
        c.recovery = {}

    def check(self, c):
        from p_hands import quiet
        p = c.plan
        out = quiet(c)
        good = [x for x in c.rec.rounds if x.t > p['calm'] and 'tallies' in x.files]
        if not good or good[0].end > p['calm'] + p['bound']:
            out.append(v('not-recovered', c.world.now, 'no round was started and published within %.0f s of the last fault'
                         ' (at %.1f)' % (p['bound'], p['calm'])))
        if good:
            c.recovery = {'recovery.seconds': int(good[0].end - p['calm']), 'recovery.rounds': len(good),
                          'recovery.runs': 1}
            for x in c.rec.rounds:
                if p['net']['lat'][1] < 0.1 and x.t > good[0].end and x.how == 'outcome' and 'tallies' not in x.files:
                    out.append(v('lapsed', x.end, 'round %d failed with no fault since %.1f' % (x.n, p['calm'])))
        return out

    def probes(self, c):
        d = round_probes(c)
        d.update(c.recovery)
        return d
