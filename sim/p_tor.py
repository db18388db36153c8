'''
C10: a collector has Tor's events on exactly while collecting, and counts each once.
C11: a collector authenticates Tor before trusting or commanding it.

Both are decided from the lines on the control connections between the real collectors and the simulated Tor.
'''
import hashlib
import hmac
import os

import boot
import gen
import meaning
import oracles
from cluster import COUNTERS
from oracles import v
from profile import Profile, round_probes
from tor import SERVER_KEY, CLIENT_KEY

# a Tor says these only to a controller that authenticated: none of it may be believed before
LIES = ['250-fingerprint=' + 'F' * 40, '250+ns/id/' + 'F' * 40 + '=', 's Impostor Exit Guard', '.',
        '250 Nickname=Impostor', '250 ORPort=6666', '650 PRIVCOUNT_STREAM_ENDED 1 2 3 80 1000 2000 1.0 2.0 a.example'
        ' 1.2.3.4 1', '250-privcount-version=Impostor', '250-address=66.66.66.66', '250 OK', '250 GeoIPFile=Impostor',
        '250-ns/id/' + 'F' * 40 + '=']
DONE = '250 OK'


def collecting(c):
    '''what each collector was told, in order: {dc: [(tick, time, kind, message or inc)]} with kinds start (it answered
    START SUCCESS), stop (it read a STOP), stopped (it answered), exit'''
    out = dict((n.name, []) for n in c.dcs)
    for m in c.rec.msgs:
        if m.src in out and m.kind == 'START SUCCESS':
            out[m.src].append((m.tick, m.t, 'start', m))
        elif m.src in out and m.kind in ('STOP SUCCESS', 'STOP FAIL'):
            out[m.src].append((m.tick, m.t, 'stopped', m))
        elif m.dst in out and m.kind == 'STOP' and m.got_tick is not None:
            out[m.dst].append((m.got_tick, m.got, 'stop', m))
    return out


def links(c):
    'control connections, per collector: [(dc, incarnation, link)]'
    out = dict((n.name, []) for n in c.dcs)
    for t, a, b, cid in c.rec.accepts:
        if cid in c.rec.links:
            out[a].append(c.rec.links[cid])
    return out


def closed(c, link):
    return c.rec.closes.get(link.conn.id, [])


def commands(c):
    'what the collectors sent to Tor, against what they were collecting'
    out, st = [], c.tor_stats
    told = collecting(c)
    cols = dict((id(k.start_msg), k) for k in c.rec.collections)
    for dc, ls in sorted(links(c).items()):
        i = int(dc[2:])
        use = c.plan['dcs'][i].get('use_setconf', True)
        ev = [(e[0], e[1], e[2], e[3]) for e in told[dc]]
        for l in ls:
            ev += [(tick, t, 'cmd', (l, line)) for tick, t, kind, line, _ in l.log if kind == 'cmd']
            for t, tick, who, how in closed(c, l):
                ev.append((tick, t, 'close', l, 'own' if (who, how) == (dc, 'close') else 'other'))
        ev += [(None, t, 'exit', inc) for t, name, inc, how, code in c.rec.exits if name == dc]
        # exits have no tick: a collector that ended says nothing more with this incarnation
        ev = sorted([e for e in ev if e[0] is not None], key=lambda e: e[0])
        col, live, conf, ending = None, [], {}, []
        for e in ev:
            tick, t, kind, x = e[:4]
            how = e[4] if len(e) > 4 else None
            if kind == 'start':
                col = cols.get(id(x))
            elif kind == 'stop':
                ending = []
            elif kind == 'stopped':
                was, col = col, None
                # both ways of ending a collection leave every connection silent
                for l in live + ending:
                    if l in conf and conf[l].get('events') and l in live:
                        out.append(v('events-on-after-stop', t, '%s stopped collecting and left Tor\'s events on' % dc))
                    if l in conf and conf[l].get('authed') and not conf[l].get('quit') and l in live:
                        out.append(v('stop-keeps-connection', t, '%s stopped and did not say goodbye to Tor' % dc))
                    if use and l in conf and conf[l].get('EnablePrivCount') == '1':
                        out.append(v('privcount-left-on', t, '%s stopped and left EnablePrivCount on' % dc))
                    if use and l in conf and conf[l].get('__ReloadTorrcOnSIGHUP') == '0':
                        out.append(v('reload-left-off', t, '%s stopped and left __ReloadTorrcOnSIGHUP=0' % dc))
                    if use and l in conf and float(conf[l].get('PrivCountCircuitSampleRate', 1.0)) != 1.0:
                        out.append(v('rate-left', t, '%s stopped and left Tor\'s sample rate' % dc))
                    if use and l in conf and int(conf[l].get('PrivCountMaxCellEventsPerCircuit', -1)) >= 0:
                        out.append(v('max-cells-left', t, '%s stopped and left Tor\'s cell limit' % dc))
                    if l in conf and conf[l].get('tmodel'):
                        out.append(v('model-left', t, '%s stopped and left the traffic model in Tor' % dc))
            elif kind == 'close':
                if x in live:
                    live.remove(x)
                    if how == 'own':
                        # it closed the connection itself: what it said before that reached Tor
                        ending.append(x)
            elif kind == 'cmd':
                l, line = x
                if l not in conf:
                    conf[l] = {}
                    live.append(l)
                k = conf[l]
                word, _, rest = line.partition(' ')
                if word == 'AUTHENTICATE':
                    k['authed'] = True
                elif word == 'QUIT':
                    k['quit'] = True
                    k['events'] = None
                elif word == 'SETCONF':
                    if not use:
                        out.append(v('setconf-forbidden', t, '%s sent %s with use_setconf off' % (dc, line)))
                    for kv in rest.split(' '):
                        a, _, b = kv.partition('=')
                        k[a] = b
                elif word == 'SET_TMODEL':
                    k['tmodel'] = rest if rest.startswith('TRUE') else None
                elif word == 'SETEVENTS':
                    want = set(e for e in rest.split(' ') if e)
                    k['events'] = want or None
                    if not want:
                        continue
                    st['events.on'] += 1
                    if col is None or col.inc != l.inc:
                        out.append(v('events-outside', t, '%s asked for events while not collecting' % dc))
                        continue
                    earliest = col.start.got + float(col.config.get('defer_time', 0.0)) if col.start else col.t
                    if t < earliest - 1e-6:
                        out.append(v('events-early', t, '%s asked for events %.3f s before its collection began'
                                     % (dc, earliest - t)))
                    need = meaning.events(col.config['counters'])
                    if want != need:
                        out.append(v('wrong-events', t, '%s asked for %s, its counters need %s'
                                     % (dc, sorted(want), sorted(need))))
                    if use:
                        rate = float(col.config.get('circuit_sample_rate', 1.0))
                        cells = int(col.config.get('max_cell_events_per_circuit', -1))
                        if k.get('EnablePrivCount') != '1':
                            out.append(v('not-enabled', t, '%s asked for events without EnablePrivCount=1' % dc))
                        if k.get('__ReloadTorrcOnSIGHUP') != '0':
                            out.append(v('not-protected', t, '%s asked for events without __ReloadTorrcOnSIGHUP=0' % dc))
                        if float(k.get('PrivCountCircuitSampleRate', 1.0)) != rate:
                            out.append(v('sample-rate', t, '%s counts with sample rate %s, asked for %s'
                                         % (dc, k.get('PrivCountCircuitSampleRate'), rate)))
                        if max(-1, int(k.get('PrivCountMaxCellEventsPerCircuit', -1))) != max(-1, cells):
                            out.append(v('max-cells', t, '%s counts with cell limit %s, asked for %s'
                                         % (dc, k.get('PrivCountMaxCellEventsPerCircuit'), cells)))
    return out


def on_again(c):
    'while collecting, events are on whenever Tor has been well for long enough'
    out, st = [], c.tor_stats
    told = collecting(c)
    for dc, ls in sorted(links(c).items()):
        i = int(dc[2:])
        tor = 'tor%d' % i
        bad = [t for t, lo in disturbances(c, dc, tor)]
        spans = []
        ends = [(e[1], e[2], e[3]) for e in told[dc]] + [(t, 'exit', inc) for t, n, inc, _, _ in c.rec.exits if n == dc]
        ends.sort(key=lambda e: e[0])
        for k in c.rec.collections:
            if k.dc != dc or k.start is None:
                continue
            w = k.config.get('noise_weight', {})
            if not any(fp == '*' or fp in w for fp in k.fps) and k.fps:
                continue
            e = [t for t, what, x in ends if t >= k.t and what in ('stop', 'exit')]
            spans.append((k.start.got + float(k.config.get('defer_time', 0.0)), min(e) if e else c.world.now, k))
        for a, b, k in spans:
            # changes of the state of any connection in the span
            marks = []
            for l in ls:
                if l.inc != k.inc:
                    continue
                for tick, t, kind, line, _ in l.log:
                    if kind == 'cmd' and line.startswith('SETEVENTS ') and line[10:].strip():
                        marks.append((t, tick, 1, l))
                    elif kind == 'cmd' and line.strip() in ('SETEVENTS', 'QUIT'):
                        marks.append((t, tick, 0, l))
                for t, tick, who, how in closed(c, l):
                    marks.append((t, tick, 0, l))
            on, since = set(), a
            for t, tick, up, l in sorted(marks, key=lambda m: m[1]) + [(b, None, 2, None)]:
                if t > b:
                    t = b
                if not on and t > since:
                    last = max([since] + [d for d in bad if since <= d < t])
                    bound = last + 5 * (last - a) + 15
                    st['off.worst'] = max(st['off.worst'], round(min(t, b) - since, 1))
                    if min(t, b) > bound:
                        out.append(v('events-off', min(t, b), '%s was collecting with Tor\'s events off for %.1f s'
                                     ' (from %.1f, last disturbance %.1f)' % (dc, min(t, b) - since, since, last)))
                if up == 1:
                    on.add(l)
                elif up == 0:
                    was = bool(on)
                    on.discard(l)
                    if was and not on:
                        since = max(t, a)
                if t >= b:
                    break
            st['collections'] += 1
    return out


def disturbances(c, dc, tor):
    'times until which something that concerns this collector and its Tor was not well'
    out = []
    for op in c.plan.get('ops', []):
        t = op.get('t')
        if t is None:
            continue
        who = set(op.get('nodes', [])) | set([op.get('node'), op.get('a'), op.get('b')])
        if dc in who or tor in who:
            out.append((t + max(op.get('d') or 0, op.get('down') or 0), t))
    for t, name, what, cid in [n[:4] for n in c.rec.tor_notes]:
        if name == tor and what == 'fault':
            out.append((t, t))
    return sorted(out)


def counts_exact(c):
    'what was reported is what was counted, for every collection that ended'
    out = []
    for k in c.rec.collections:
        if not k.reported or k.shares is None:
            continue
        for key, r in sorted(c.rec.residual(k).items()):
            b = oracles.noise_bound(c, k, key[0])
            if abs(r) > b:
                out.append(v('dc-count-wrong', k.ended, '%s reported %s off by %d (noise bound %d, counted %d)'
                             % (k.dc, key, r, b, k.counts.get(key, 0)), counter=key[0]))
    return out


def no_exits(c):
    out = []
    for t, name, inc, how, code in c.rec.exits:
        if how not in ('kill', 'power', 'rm'):
            out.append(v('exit', t, '%s ended (%s %s)' % (name, how, code)))
    return out


class TorProfile(Profile):
    def attach(self, c):
        c.tor_stats = {'events.on': 0, 'collections': 0, 'off.worst': 0.0}

    def common(self, r, p):
        p['net'] = {'lat': gen.pick(r, [[0.001, 0.05], [0.002, 0.3]]), 'chunk': gen.pick(r, [0, 0, 64, 7])}
        for d in p['dcs']:
            if r.random() < 0.5:
                d['tor']['cells'] = True
        if r.random() < 0.5:
            p['ts']['circuit_sample_rate'] = gen.pick(r, [0.0, 0.01, 0.5, 1.0])
        if r.random() < 0.5:
            p['ts']['max_cell_events_per_circuit'] = gen.pick(r, [-5, -1, 0, 1, 25])


class C10(TorProfile):
    id = 'C10'

    def gen(self, seed, tier):
        r = self.rng(seed)
        if r.random() < 0.35:
            return self.scripted(r, seed)
        return self.real(r, seed)

    def malformed(self, r, p):
        for d in p['dcs']:
            if r.random() < 0.3:
                d['tor']['mix'] = list(d['tor']['mix']) + [gen.pick(r, ['badstream', 'badconn', 'legacy', 'empty',
                                                                       'badcirc', 'unknown'])]
                d['tor']['mix'] += ['stream', 'conn'] * 4
            if r.random() < 0.3:
                d['tor']['rude'] = True
            if r.random() < 0.4:
                d['tor']['faults'] = [self.reply_fault(r) for _ in range(1 + int(r.random() * 4))]

    def reply_fault(self, r):
        k = r.random()
        if k < 0.7:
            return {'at': 'reply', 'cmd': gen.pick(r, ['SETEVENTS', 'SETCONF', 'GETCONF', 'GETINFO', 'SET_TMODEL']),
                    'kind': gen.pick(r, ['error', 'close', 'garbage']), 'skip': int(r.random() * 8),
                    'left': 1 + int(r.random() * 2)}
        if k < 0.85:
            return {'at': 'authenticate', 'kind': gen.pick(r, ['reject', 'close', 'stay']), 'skip': int(r.random() * 2)}
        return {'at': 'protocolinfo', 'kind': gen.pick(r, ['close', 'error', 'garbage', 'only']), 'skip': int(r.random() * 2)}

    def real(self, r, seed):
        p = gen.base(r, seed, sks=gen.pick(r, [1, 1, 2]), dcs=gen.pick(r, [1, 2]), rounds=1)
        self.common(r, p)
        period = gen.pick(r, [30, 60, 120])
        p['ts']['collect_period'] = period
        rounds = 3 if period < 100 else 2
        p['end'] = int(30 + rounds * (period + 2 * p['ts']['event_period'] + 4 * p['ts']['checkin_period'] + 12))
        self.malformed(r, p)
        if r.random() < 0.85:
            n = 1 + int(r.random() * 5)
            early = r.random() < 0.6
            kinds = gen.sample(r, ['kill_tor', 'reset_tor', 'reset_burst_tor', 'partition_tor', 'stall_pair', 'kill_dc',
                                   'reset'], 1 + int(r.random() * 3))
            for _ in range(n):
                i = int(r.random() * len(p['dcs']))
                t = gen.uni(r, 8, 50 if early else p['end'] - 10)
                self.disturb(r, p, gen.pick(r, kinds), i, t)
        p['ops'].sort(key=lambda o: o.get('t', 0))
        return p

    def disturb(self, r, p, kind, i, t):
        tor, dc = 'tor%d' % i, 'dc%d' % i
        if kind == 'kill_tor':
            p['ops'].append({'op': 'kill', 't': t, 'node': tor, 'down': gen.pick(r, [0.01, gen.uni(r, 0.05, 4),
                                                                                    gen.uni(r, 1, 15)])})
        elif kind == 'reset_tor':
            p['ops'].append({'op': 'reset', 't': t, 'a': tor, 'b': dc})
        elif kind == 'reset_burst_tor':
            for k in range(2 + int(r.random() * 4)):
                p['ops'].append({'op': 'reset', 't': round(t + k * gen.uni(r, 0.1, 3), 3), 'a': tor, 'b': dc})
        elif kind == 'partition_tor':
            p['ops'].append({'op': 'partition', 't': t, 'nodes': [tor, dc], 'd': gen.uni(r, 0.5, 8)})
        elif kind == 'stall_pair':
            p['ops'].append({'op': 'stall', 't': t, 'node': gen.pick(r, [tor, dc]), 'd': gen.uni(r, 0.2, 8)})
        elif kind == 'kill_dc':
            p['ops'].append({'op': 'kill', 't': t, 'node': dc, 'down': gen.uni(r, 0.1, 5)})
        elif kind == 'reset':
            p['ops'].append({'op': 'reset', 't': t, 'a': dc, 'b': 'ts'})

    def scripted(self, r, seed):
        p = gen.base(r, seed, sks=1, dcs=1, rounds=1)
        self.common(r, p)
        p['net']['chunk'] = 0
        p['rogue'] = {'checkin': 1}
        self.malformed(r, p)
        d = p['dcs'][0]
        d['tor']['rate'] = gen.uni(r, 0.5, 3)
        t = 8.0
        for k in range(4 + int(r.random() * 5)):
            names = sorted(gen.sample(r, gen.NAMES, 1 + int(r.random() * 4)))
            cmd = {'op': 'cmd', 'cmd': 'start', 'counters': names, 'dcs': ['dc0'], 'node': 'dc0',
                   'defer': gen.pick(r, [0.0, 0.01, 1.0, 3.0, gen.uni(r, 0, 8)]), 'set': {}}
            if r.random() < 0.5:
                cmd['set']['circuit_sample_rate'] = gen.pick(r, [0.0, 0.01, 0.5, 1.0])
            if r.random() < 0.5:
                cmd['set']['max_cell_events_per_circuit'] = gen.pick(r, [-5, -1, 0, 1, 25])
            for rep in range(gen.pick(r, [1, 1, 1, 2])):
                p['ops'].append(dict(cmd, t=round(t + rep * gen.uni(r, 0.2, 4), 3)))
            t += gen.pick(r, [gen.uni(r, 0.2, 1.5), gen.uni(r, 1, 6), gen.uni(r, 5, 40)])
            for rep in range(gen.pick(r, [1, 1, 1, 2])):
                p['ops'].append({'op': 'cmd', 'cmd': 'stop', 't': round(t + rep * 0.5, 3), 'node': 'dc0',
                                 'send': r.random() < 0.85})
            t += gen.pick(r, [0.01, gen.uni(r, 0.1, 2), gen.uni(r, 1, 6)])
            if r.random() < 0.3:
                self.disturb(r, p, gen.pick(r, ['kill_tor', 'reset_tor', 'partition_tor', 'stall_pair', 'reset']), 0,
                             gen.uni(r, 8, max(9, t)))
        p['end'] = int(t + 12)
        p['ops'].sort(key=lambda o: o.get('t', 0))
        return p

    def check(self, c):
        return commands(c) + on_again(c) + counts_exact(c) + oracles.tally_exact(c) + no_exits(c)

    def probes(self, c):
        d = round_probes(c)
        d.update(c.tor_stats)
        return d


# -- C11 ------------------------------------------------------------------------------------------------------------
def unhex(s):
    try:
        return s.strip().decode('hex')
    except TypeError:
        return None


def authentication(c):
    out, st, vouched = [], c.auth_stats, set()
    for dc, ls in sorted(links(c).items()):
        i = int(dc[2:])
        password = c.plan['dcs'][i].get('dc_password')
        nonces = set()
        for l in ls:
            out += one_link(c, dc, l, password, nonces, st, vouched)
    for m in c.rec.msgs:
        if m.src.startswith('dc') and m.src not in vouched and lie(m.text):
            out.append(v('lie-believed', m.t, '%s told the tally server what an unauthenticated Tor claimed: %s'
                         % (m.src, m.text[:200])))
    return out


def lie(text):
    return 'Impostor' in text or 'F' * 40 in text or '66.66.66.66' in text


def one_link(c, dc, l, password, nonces, st, vouched):
    out = []
    methods, offered, complete = [], None, False
    nonce = proof = None            # ours, and the answer a verified challenge entitles us to
    stage = 'new'
    bad = None
    st['links'] += 1
    cookies = set()
    for tick, t, kind, line, secret in l.log:
        if kind == 'got':
            if stage == 'authed':
                if lie(line):
                    vouched.add(dc)     # said after it had accepted the collector: as good as a Tor's word
                continue
            if line.startswith('250-AUTH') and stage == 'new':
                methods = line.partition('METHODS=')[2].partition(' ')[0].split(',')
                offered = line.partition('COOKIEFILE="')[2].rpartition('"')[0] if 'COOKIEFILE="' in line else None
            elif line.startswith('250 AUTHCHALLENGE SERVERHASH='):
                if stage != 'challenged':
                    continue
                a, _, b = line.partition('SERVERHASH=')[2].partition(' SERVERNONCE=')
                sh, sn = unhex(a), unhex(b)
                if secret:
                    cookies.add(secret)
                good = (sh is not None and sn is not None and secret is not None and len(secret) == 32 and
                        len(sn) == 32 and
                        sh == hmac.new(SERVER_KEY, secret + nonce + sn, hashlib.sha256).digest())
                if good:
                    proof = hmac.new(CLIENT_KEY, secret + nonce + sn, hashlib.sha256).digest()
                    stage = 'proved'
                    st['proved'] += 1
                elif proof is None:
                    stage, bad = 'failed', (t, line)
                    st['refused'] += 1
            elif line.startswith('5'):
                if stage in ('asked', 'challenged', 'new', 'proved'):
                    stage, bad = 'failed', (t, line)
                    st['refused'] += 1
            elif line == DONE and stage == 'asked':
                stage = 'authed'
                st['authed'] += 1
            continue
        # what the collector says
        word, _, rest = line.partition(' ')
        if stage == 'authed' and word not in ('AUTHENTICATE', 'AUTHCHALLENGE'):
            continue
        if word == 'QUIT':
            if bad:
                bad = None
            continue
        if word == 'PROTOCOLINFO':
            continue
        if bad is not None and t > bad[0] + 1e-9:
            out.append(v('goes-on', t, '%s went on with %r after %r' % (dc, line[:40], bad[1][:60])))
        if word == 'AUTHCHALLENGE':
            n = unhex(rest.partition('SAFECOOKIE ')[2])
            if 'SAFECOOKIE' not in methods:
                out.append(v('method-not-offered', t, '%s used SAFECOOKIE, offered %s' % (dc, methods)))
            if n is None or len(n) < 32:
                out.append(v('weak-nonce', t, '%s sent nonce %r' % (dc, rest[:80])))
            if n in nonces:
                out.append(v('nonce-reused', t, '%s sent the same nonce twice' % dc))
            nonces.add(n)
            nonce, stage = n, 'challenged'
        elif word == 'AUTHENTICATE':
            arg = rest.strip()
            raw = unhex(arg) if arg and not arg.startswith('"') else arg.strip('"')
            if not arg:
                if 'NULL' not in methods:
                    out.append(v('method-not-offered', t, '%s used NULL, offered %s' % (dc, methods)))
                if 'SAFECOOKIE' in methods and offered:
                    out.append(v('weaker-method', t, '%s used NULL, offered %s' % (dc, methods)))
            elif raw is not None and raw == proof:
                pass
            elif password is not None and raw == password:
                if 'HASHEDPASSWORD' not in methods:
                    out.append(v('password-leak', t, '%s sent its password, offered %s' % (dc, methods)))
                if 'SAFECOOKIE' in methods and offered:
                    out.append(v('weaker-method', t, '%s sent its password, offered %s' % (dc, methods)))
                if len(password) < 8:
                    out.append(v('weak-password', t, '%s authenticated with %d bytes' % (dc, len(password))))
                st['passwords'] += 1
            else:
                out.append(v('bad-proof', t, '%s authenticated with %s, which nothing entitles it to' % (dc, line[:90])))
            stage = 'asked'
        else:
            out.append(v('command-before-auth', t, '%s sent %r to a Tor that had not accepted it' % (dc, line[:60])))
    # what must never be on the wire
    for tick, t, kind, line, _ in l.log:
        if kind != 'cmd':
            continue
        low = line.lower()
        for s in cookies:
            if len(s) >= 16 and (s in line or s.encode('hex') in low):
                out.append(v('cookie-leak', t, '%s sent the cookie' % dc))
    # a Tor that failed is let go at once
    if stage == 'failed' and bad is not None:
        ended = [x[0] for x in closed(c, l) if x[2] == dc] + [x[0] for x in closed(c, l)]
        gone = [t for t, n, inc, _, _ in c.rec.exits if n == dc and inc == l.inc]
        when = min(ended + gone + [c.world.now])
        node = c.world.nodes[dc]
        if when > bad[0] + 1.0 and when - bad[0] > 1.0:
            out.append(v('stays', when, '%s kept a connection %.1f s after %r' % (dc, when - bad[0], bad[1][:60])))
    return out


class C11(TorProfile):
    id = 'C11'

    def attach(self, c):
        TorProfile.attach(self, c)
        c.auth_stats = {'links': 0, 'authed': 0, 'refused': 0, 'passwords': 0, 'proved': 0}

    def gen(self, seed, tier):
        r = self.rng(seed)
        p = gen.base(r, seed, sks=1, dcs=gen.pick(r, [1, 2, 2]), rounds=1)
        self.common(r, p)
        p['ts']['collect_period'] = gen.pick(r, [20, 40])
        for d in p['dcs']:
            tor = d['tor']
            for k in ('auth', 'password'):
                tor.pop(k, None)
            d.pop('dc_password', None)
            a = r.random()
            if a < 0.5:
                tor['auth'] = ['SAFECOOKIE']
            elif a < 0.65:
                tor['auth'] = gen.pick(r, [['SAFECOOKIE', 'HASHEDPASSWORD'], ['COOKIE', 'SAFECOOKIE', 'HASHEDPASSWORD'],
                                           ['SAFECOOKIE', 'NULL'], ['COOKIE', 'SAFECOOKIE']])
            elif a < 0.85:
                tor['auth'] = ['HASHEDPASSWORD']
            elif a < 0.93:
                tor['auth'] = ['NULL']
            else:
                tor['auth'] = gen.pick(r, [['COOKIE'], [], ['COOKIE', 'HASHEDPASSWORD']])
            if r.random() < 0.6 or 'HASHEDPASSWORD' in tor['auth']:
                pw = gen.pick(r, ['correct horse battery', 'correct horse battery', 'pass "quoted" \\word', '8 bytes!',
                                  'short', '', 'x' * 1024, 'x' * 1025])
                d['dc_password'] = pw or None
                tor['password'] = pw if r.random() < 0.85 else 'something else'
            if r.random() < 0.2:
                tor['cookie_len'] = gen.pick(r, [0, 1, 16, 31, 33, 64])
            tor['faults'] = [self.fault(r, d) for _ in range(int(r.random() * 6))]
            if r.random() < 0.3:
                tor['rude'] = True
        p['end'] = int(90 + r.random() * 60)
        for _ in range(int(r.random() * 6)):
            i = int(r.random() * len(p['dcs']))
            t = gen.uni(r, 5, p['end'] - 20)
            C10.disturb.__func__(self, r, p, gen.pick(r, ['kill_tor', 'reset_tor', 'reset_burst_tor', 'partition_tor']),
                                 i, t)
        for i, d in enumerate(p['dcs']):
            if r.random() < 0.3:
                # whoever answers changes while the collector runs
                p['ops'].append({'op': 'tor', 't': gen.uni(r, 15, 60), 'node': 'tor%d' % i, 'set': {
                    'faults': [self.fault(r, d) for _ in range(1 + int(r.random() * 3))]}})
                p['ops'].append({'op': 'reset', 't': gen.uni(r, 60, 65), 'a': 'tor%d' % i, 'b': 'dc%d' % i})
        p['ops'].sort(key=lambda o: o.get('t', 0))
        return p

    def fault(self, r, d):
        k = r.random()
        skip, left = int(r.random() * 3), 1 + int(r.random() * 3)
        if k < 0.3:
            f = {'at': 'authchallenge', 'kind': gen.pick(r, ['badhash', 'garbage', 'skip', 'zero', 'guess', 'filehash',
                                                            'shortnonce', 'longnonce', 'reflect', 'shorthash',
                                                            'clienthash', 'othernonce', 'error', 'close', 'silent']),
                 'n': gen.pick(r, [0, 1, 8, 16, 31]), 'at_byte': 0}
            f.pop('at_byte')
            if f['kind'] == 'badhash':
                f['byte'] = gen.pick(r, [0, 1, 15, 31])
        elif k < 0.5:
            kind = gen.pick(r, ['error', 'silent', 'close', 'garbage', 'only', 'methods', 'methods', 'methods'])
            f = {'at': 'protocolinfo', 'kind': kind}
            if kind == 'methods':
                f['methods'] = gen.pick(r, [['NULL'], ['HASHEDPASSWORD'], ['HASHEDPASSWORD', 'NULL'], [], ['COOKIE'],
                                            ['SAFECOOKIE'], ['SAFECOOKIE', 'HASHEDPASSWORD'], ['safecookie'],
                                            ['SAFECOOKIE', 'NULL'], ['NULL', 'SAFECOOKIE', 'HASHEDPASSWORD']])
                x = r.random()
                if x < 0.4:
                    f['same'] = True
                elif x < 0.7:
                    f['cookiefile'] = gen.pick(r, ['', 'missing', 'results', 'handshake.yaml', 'country-a.txt'])
        elif k < 0.65:
            f = {'at': 'authenticate', 'kind': gen.pick(r, ['reject', 'silent', 'close', 'stay'])}
        else:
            lines = [gen.pick(r, LIES) for _ in range(1 + int(r.random() * 4))]
            x = r.random()
            if x < 0.2:
                lines = [LIES[1], LIES[2], LIES[3]]
            elif x < 0.3:
                lines.append('250 AUTHCHALLENGE SERVERHASH=%s SERVERNONCE=%s' % ('0' * 64, '0' * 64))
            elif x < 0.4:
                lines.append('515 Authentication failed')
            f = {'at': 'chatter', 'kind': 'lines', 'cmd': gen.pick(r, ['connect', 'PROTOCOLINFO', 'AUTHCHALLENGE',
                                                                      'AUTHENTICATE']), 'lines': lines}
        f['skip'], f['left'] = skip, left
        return f

    def check(self, c):
        return authentication(c) + counts_exact(c) + oracles.tally_exact(c) + no_exits(c)

    def probes(self, c):
        d = round_probes(c)
        d.update(dict(('auth.' + k, x) for k, x in c.auth_stats.items()))
        return d
