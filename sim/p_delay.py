'''
C05: a node does not collect again before its delay has passed, when the noise went down.

Half of the runs put the real clients under a scripted tally server that asks for whatever it likes; the others run
the real tally server with an operator who edits the noise and the delay.
'''
import yaml

import gen
import recorder
from cluster import COUNTERS
from oracles import v
from profile import Profile, round_probes

DAY = 24 * 60 * 60.0
SECTION = {'ts': 'tally_server', 'sk': 'share_keeper', 'dc': 'data_collector'}
_parsed = {}


def settings(node, text):
    '(delay period, always delay, tolerance) of a config file as an operator means it'
    key = (node[:2], text)
    if key not in _parsed:
        c = yaml.load(text)[SECTION[node[:2]]]
        d = c.get('delay_period')
        if d is None or d < 0:
            d = DAY
        if len(_parsed) > 300:
            _parsed.clear()
        _parsed[key] = (float(d), bool(c.get('always_delay', False)), float(c.get('sigma_decrease_tolerance', 1e-6)))
    return _parsed[key]


def lower(old, new, tol):
    'does changing the noise from old to new need a delay?'
    if set(old) != set(new):
        return True
    return any(float(old[k]['sigma']) - float(new[k]['sigma']) > tol for k in old)


class Delay(object):
    'the record a node must keep'

    def __init__(self):
        self.end = None
        self.first = None

    def earliest(self, noise, conf):
        if self.end is None:
            return 0.0
        delay, always, tol = conf
        if always or (self.first is not None and lower(self.first, noise, tol)):
            return self.end + delay
        return self.end

    def stopped(self, noise, clock, conf):
        delay, always, tol = conf
        self.end = clock
        if self.first is None or always or lower(self.first, noise, tol):
            self.first = noise


def share_names(rec, m):
    'counter names in each share given to a share keeper, None when unreadable'
    uid_key = rec.c.plan['sks'][int(m.dst[2:])]['key']
    out = []
    for s in m.data.get('shares', []):
        try:
            out.append(set(recorder.open_share(uid_key, s['secret'])[0]))
        except Exception:
            return None
    return out


def clients(c):
    rec, out = c.rec, []
    st = c.delay_stats
    for n in c.sks + c.dcs:
        name = n.name
        ev = [(t, 0, 'read', (inc, text)) for t, nn, inc, base, text, _ in rec.reads
              if nn == name and base == name + '.yaml']
        for i, m in enumerate(rec.msgs):
            if m.dst == name and m.kind in ('START', 'STOP') and m.got is not None:
                ans = [a for a in rec.by_conn[m.conn] if a.src == name and a.seq > m.seq
                       and a.kind.startswith(m.kind + ' ') and abs(a.t - m.got) < 1e-9]
                ev.append((m.got, 1 + m.seq, m.kind, (m, ans[0] if ans else None)))
        ev.sort(key=lambda e: e[:2])
        model, conf, inc, active, noise = Delay(), None, None, False, None
        for t, _, kind, x in ev:
            i = x[0] if kind == 'read' else x[0].got_inc
            if i != inc:
                model, conf, inc, active, noise = Delay(), None, i, False, None
            if kind == 'read':
                conf = settings(name, x[1])
                continue
            m, a = x
            if a is None or conf is None:
                continue
            if kind == 'START':
                new = m.data['noise']['counters']
                first = model.earliest(new, conf)
                ok = a.kind == 'START SUCCESS'
                if active and name.startswith('dc'):
                    continue
                need = model.end is not None and first > model.end
                st['starts.need_delay'] += need
                st['starts'] += 1
                if ok and m.got_clock < first:
                    out.append(v('early-start', t, '%s took part %.1f s too early (its last collection ended %.1f s ago,'
                                 ' delay %.0f)' % (name, first - m.got_clock, m.got_clock - model.end, conf[0])))
                if not ok and m.got_clock >= first and c.plan.get('rogue') is not None:
                    if name.startswith('dc') or share_names(rec, m) == [set(m.data['counters'])] * len(
                            m.data.get('shares', [])):
                        out.append(v('start-refused', t, '%s refused a start that needs no delay (needed until %.1f s'
                                     ' ago)' % (name, m.got_clock - first)))
                st['starts.refused'] += not ok
                if ok:
                    active, noise = True, new
            else:
                active = False
                if a.kind == 'STOP SUCCESS' and a.data.get('Counts') is not None:
                    if noise is None:
                        continue
                    st['stops.with_counts'] += 1
                    model.stopped(noise, m.got_clock, conf)
                    noise = None
    return out


def server(c):
    rec, out = c.rec, []
    st = c.delay_stats
    model, inc, last = Delay(), None, 0.0
    for r in rec.rounds:
        if r.inc != inc:
            model, inc, last = Delay(), r.inc, 0.0
        m = r.starts[0]
        dcs = [x for x in r.starts if 'sharekeepers' in x.data]
        if not dcs:
            continue
        noise = dcs[0].data['noise']['counters']
        # any configuration the server read since its last round, and the one before
        texts = [x for x in rec.reads if x[1] == 'ts' and x[2] == inc and x[3] == 'ts.yaml' and x[0] <= m.t]
        confs = [settings('ts', x[4]) for x in texts if x[0] >= last] or [settings('ts', x[4]) for x in texts[-1:]]
        if confs:
            first = min(model.earliest(noise, x) for x in confs)
            st['rounds.need_delay'] += model.end is not None and first > model.end
            if m.clock < first:
                out.append(v('early-round', m.t, 'the tally server started a round %.1f s too early (the last one ended'
                             ' %.1f s before)' % (first - m.clock, m.clock - model.end)))
        if 'tallies' in r.files:
            f = [x for x in rec.files if x[4] is r and x[3] == r.files['tallies']][0]
            conf = [settings('ts', x[4]) for x in rec.reads
                    if x[1] == 'ts' and x[2] == inc and x[3] == 'ts.yaml' and x[0] <= f[0]][-1]
            model.stopped(noise, f[2], conf)
            last = f[0]
    return out


class C05(Profile):
    id = 'C05'

    def gen(self, seed, tier):
        r = self.rng(seed)
        if r.random() < 0.65:
            return self.rogue(r, seed)
        return self.honest(r, seed)

    def client_conf(self, r):
        k = r.random()
        c = {'delay_period': gen.pick(r, [10, 20, 35, 60]), 'always_delay': r.random() < 0.15}
        if k < 0.08:
            c['delay_period'] = None
        elif k < 0.16:
            c['delay_period'] = -1
        elif k < 0.22:
            c['delay_period'] = 0
        if r.random() < 0.5:
            c['sigma_decrease_tolerance'] = gen.pick(r, [0.5, 5.0, 1e-3])
        return c

    def wander(self, r, names, sig, tol):
        'the next noise allocation an operator or a rogue might ask for'
        out = dict(sig)
        k = r.random()
        pickn = [n for n in sorted(out) if out[n] is not None]
        if k < 0.25 or not pickn:
            return out
        n = gen.pick(r, pickn)
        if k < 0.4:
            out[n] = out[n] * gen.pick(r, [1.1, 2.0])
        elif k < 0.6:
            out[n] = max(0.0, out[n] - tol * gen.pick(r, [0.6, 0.9, 0.99]))
        elif k < 0.7:
            out[n] = max(0.0, out[n] - tol * gen.pick(r, [1.1, 1.5]))
        elif k < 0.9:
            out[n] = out[n] * gen.pick(r, [0.9, 0.5, 0.0])
        elif k < 0.95:
            for n in pickn:
                out[n] = out[n] * 0.5
        else:
            for n in pickn:
                out[n] = out[n] * 1.2
            out[gen.pick(r, pickn)] *= 0.5
        return out

    def rogue(self, r, seed):
        p = gen.base(r, seed, sks=gen.pick(r, [1, 1, 2]), dcs=1, rounds=1,
                     counters=sorted(gen.sample(r, gen.FIXED, 4)))
        names = p['counters']
        p['rogue'] = {'checkin': 2}
        p['dcs'][0]['tor']['rate'] = 0.2
        p['net'] = {'lat': gen.pick(r, [[0.001, 0.05], [0.002, 0.3]]), 'chunk': 0}
        for d in p['dcs'] + p['sks']:
            d['conf'] = self.client_conf(r)
            d['tolerance'] = d['conf'].get('sigma_decrease_tolerance', 1e-6)
            if d['conf']['delay_period'] is None:
                # absent: the safe default
                d['conf']['delay_period'] = 0
                d['absent'] = True
        tol = gen.pick(r, [d['tolerance'] for d in p['dcs'] + p['sks']])
        cur = dict((n, gen.pick(r, [1.0, 100.0, 5000.0])) for n in names)
        use = list(names[:3])
        t = 12.0
        nodes = ['dc0'] + ['sk%d' % i for i in range(len(p['sks']))]
        for k in range(gen.pick(r, [4, 6, 8])):
            cmd = {'op': 'cmd', 'cmd': 'start', 'sigmas': dict(cur), 'counters': list(use), 'dcs': ['dc0'],
                   'defer': gen.pick(r, [0.1, 0.5, 3.0])}
            for rep in range(gen.pick(r, [1, 1, 2, 3])):
                tt = t + rep * gen.uni(r, 1.5, 12)
                if rep and r.random() < 0.4:
                    # asks for something else in the middle of a collection
                    cmd = dict(cmd, sigmas=self.wander(r, names, cur, tol))
                for n in nodes:
                    if r.random() < 0.9:
                        p['ops'].append(dict(cmd, t=round(tt + (0.0 if n == 'dc0' else gen.uni(r, 0, 3)), 3), node=n))
            t = tt + gen.uni(r, 5, 12)
            for rep in range(gen.pick(r, [1, 1, 1, 2])):
                send = r.random() < 0.85
                for n in nodes:
                    p['ops'].append({'op': 'cmd', 'cmd': 'stop', 't': round(t, 3), 'node': n,
                                     'send': send if r.random() < 0.9 else not send})
                t += gen.uni(r, 0.5, 2)
            t += gen.pick(r, [gen.uni(r, 0.5, 5), gen.uni(r, 5, 40), gen.uni(r, 18, 22), gen.uni(r, 33, 37)])
            cur = self.wander(r, names, cur, tol)
            if r.random() < 0.12:
                use = sorted(gen.sample(r, names, 2 + int(r.random() * 3)))
        p['end'] = int(t + 10)
        for n in nodes:
            x = r.random()
            if x < 0.25:
                p['ops'].append({'op': 'clock', 't': gen.uni(r, 5, t), 'node': n, 'by': gen.uni(r, 0.5, 15)})
            elif x < 0.3:
                p['ops'].append({'op': 'conf', 't': 8.0, 'node': n, 'set': {'always_delay': True, 'delay_period': 10}})
                p['ops'].append({'op': 'conf', 't': gen.uni(r, 50, 80), 'node': n, 'set': {'always_delay': False,
                                                                                          'delay_period': 50}})
            elif x < 0.45:
                p['ops'].append({'op': 'conf', 't': gen.uni(r, 15, t), 'node': n, 'set': gen.pick(r, [
                    {'delay_period': 5}, {'delay_period': 50}, {'delay_period': None}, {'always_delay': True},
                    {'always_delay': False}, {'delay_period': -5}, {'sigma_decrease_tolerance': 2.0}])})
            elif x < 0.55:
                p['ops'].append({'op': 'kill', 't': gen.uni(r, 15, t), 'node': n, 'down': gen.uni(r, 0.5, 5)})
            elif x < 0.7:
                p['ops'].append({'op': 'reset', 't': gen.uni(r, 15, t), 'a': n, 'b': 'ts'})
        p['ops'].sort(key=lambda o: o.get('t', 0))
        return p

    def honest(self, r, seed):
        p = gen.base(r, seed, rounds=5, dcs=gen.pick(r, [1, 2]), sks=gen.pick(r, [1, 2]),
                     counters=sorted(gen.sample(r, gen.PLAIN, 3)))
        p['net'] = {'lat': [0.1, 0.6], 'chunk': 0}
        for d in p['dcs']:
            d['tor']['rate'] = 0.2
        p['ts']['collect_period'] = gen.pick(r, [8, 12])
        tol = gen.pick(r, [None, 0.5, 5.0])
        p['ts'].update({'delay_period': gen.pick(r, [15, 25, 40, 60]), 'always_delay': r.random() < 0.25})
        if tol:
            p['ts']['sigma_decrease_tolerance'] = tol
        for d in p['dcs'] + p['sks']:
            if r.random() < 0.4:
                d['conf'] = {'delay_period': gen.pick(r, [10, 30]), 'always_delay': r.random() < 0.2,
                             'sigma_decrease_tolerance': tol or 1e-6}
        cur = dict((n, gen.pick(r, [1.0, 100.0, 5000.0])) for n in p['counters'])
        p['sigmas'] = dict(cur)
        t = 15.0
        while t < p['end'] - 30:
            cur = self.wander(r, p['counters'], cur, tol or 1e-6)
            p['ops'].append({'op': 'sigmas', 't': round(t, 3), 'sigmas': dict(cur)})
            t += gen.uni(r, 8, 40)
        if r.random() < 0.4:
            p['ops'].append({'op': 'conf', 't': gen.uni(r, 15, p['end'] - 30), 'node': 'ts', 'set': gen.pick(r, [
                {'delay_period': 5}, {'delay_period': 50}, {'always_delay': True}, {'always_delay': False}])})
        if r.random() < 0.4:
            gen.add_faults(r, p, ['kill_dc', 'kill_sk', 'reset', 'partition', 'clock', 'stall'], 2, 5, p['end'] - 20)
        p['ops'].sort(key=lambda o: o.get('t', 0))
        return p

    def attach(self, c):
        for i, d in enumerate(c.plan['dcs']):
            if d.get('absent'):
                c.cfg['dc%d' % i].pop('delay_period')
                c.write_node_conf('dc%d' % i)
        for i, d in enumerate(c.plan['sks']):
            if d.get('absent'):
                c.cfg['sk%d' % i].pop('delay_period')
                c.write_node_conf('sk%d' % i)
        c.delay_stats = {'starts': 0, 'starts.refused': 0, 'starts.need_delay': 0, 'stops.with_counts': 0,
                         'rounds.need_delay': 0}

    def check(self, c):
        out = clients(c)
        if c.plan.get('rogue') is None:
            out += server(c)
        return out

    def probes(self, c):
        d = round_probes(c)
        d.update(c.delay_stats)
        return d
