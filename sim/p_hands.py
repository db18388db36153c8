'''
C06: nothing is obeyed or served before the other end proved the shared secret; C07: connections of strangers never stop
or disturb a node.

A real deployment runs while simulated attackers connect to its tally server, or stand in its place.
'''
import hashlib
import hmac
import json

import gen
import oracles
from oracles import v
from peer import VERSION, WORDS, unb64, the_secret
from profile import Profile, round_probes
from simcore import Rng, subseed


def expected(secret, n, scookie, ccookie):
    w, r = WORDS[n]
    text = '%s %s %s HMAC-SHA256' % (w, VERSION, r)
    return hmac.new(secret, text + scookie + ccookie, hashlib.sha256).digest()


def parts_of(line, n, count):
    'the fields of a well formed handshake line of kind n, or None'
    p = line.split()
    w, r = WORDS[n]
    if len(p) != count or p[:4] != [w, VERSION, r, 'HMAC-SHA256']:
        return None
    return p[4:]


def strict(text, size=32):
    'base64 of exactly size bytes'
    b = unb64(text)
    if b is None or len(b) != size or len(text) != 44:
        return None
    return b


class Secrets(object):
    'the handshake key in force at a node and time, from the files of the plan'

    def __init__(self, c):
        self.c = c
        base = {'handshake.yaml': hashlib.sha256('secret').digest(), 'other.yaml': hashlib.sha256('other').digest()}
        self.h = dict((f, [(-1.0, base[f])]) for f in base)
        for op in c.plan.get('ops', []):
            if op['op'] == 'raw' and op['file'] in self.h:
                self.h[op['file']].append((op['t'], the_secret(op['text'])))

    def at(self, node, t):
        h = self.h[self.c.plan.get('handshake_of', {}).get(node, 'handshake.yaml')]
        return [k for when, k in h if when <= t][-1]


def proofs(c):
    rec, out = c.rec, []
    st = {'hands.connections': 0, 'hands.proved': 0, 'hands.refused': 0, 'hands.unproved_lines': 0}
    sec = Secrets(c)
    cookies = {}
    known = []                      # (tick, name) proved clients
    counted = []                    # what status messages say
    honest = set(n.name for n in c.world.order if n.kind != 'adv')
    for cid in sorted(rec.by_conn, key=lambda x: int(x[1:])):
        msgs = rec.by_conn[cid]
        for side in ('server', 'client'):
            node = None
            for m in msgs:
                isserver = conn_server(c, m, side)
                if isserver is not None:
                    node = isserver
                    break
            if node is None or node not in honest:
                continue
            st['hands.connections'] += side == 'server'
            ev = [(m.tick, 'send', m) for m in msgs if m.src == node]
            ev += [(m.got_tick, 'recv', m) for m in msgs if m.dst == node and m.got is not None]
            ev.sort(key=lambda e: e[0])
            authed = proved = dead = False
            sc = cc = None
            who = '%s on %s' % (node, cid)
            for tick, way, m in ev:
                line = m.text if way == 'send' else m.text_got
                w = line.split(' ')[0]
                t = m.t if way == 'send' else m.got
                if way == 'recv':
                    if dead:
                        continue
                    if side == 'server':
                        if w == WORDS[2][0]:
                            p = parts_of(line, 2, 6)
                            c2 = strict(p[0]) if p else None
                            good = bool(c2 and sc and c2 != sc and strict(p[1]) == expected(sec.at(node, t), 2, sc, c2))
                            proved, cc = good, c2
                            dead = not good
                            st['hands.proved'] += good
                        elif w == WORDS[4][0]:
                            good = proved and parts_of(line, 4, 5) == ['SUCCESS']
                            authed, dead = good, not good
                        elif w.startswith('HANDSHAKE') or not authed:
                            dead = True
                        elif w == 'STATUS':
                            try:
                                known.append((tick, json.loads(line.split(' ', 2)[2]).get('name')))
                            except (ValueError, IndexError):
                                pass
                    else:
                        if w == WORDS[1][0]:
                            p = parts_of(line, 1, 5)
                            sc = strict(p[0]) if p else None
                        elif w == WORDS[3][0]:
                            p = parts_of(line, 3, 5)
                            good = bool(p and sc and cc and strict(p[0]) == expected(sec.at(node, t), 3, sc, cc))
                            proved = authed = good
                            dead = not good
                            st['hands.proved'] += good
                        elif not authed:
                            dead = True
                    st['hands.refused'] += dead
                    continue
                # what the node says
                for k in sec.h.values():
                    for _, key in k:
                        if key.encode('base64').strip() in line or key in line or key.encode('hex') in line:
                            out.append(v('secret-sent', t, '%s sent the handshake secret: %s' % (who, line[:60])))
                if w == WORDS[1][0]:
                    p = parts_of(line, 1, 5)
                    sc = strict(p[0]) if p else None
                    if sc is None:
                        out.append(v('nonce-bad', t, '%s sent %s' % (who, line[:80])))
                    elif sc in cookies:
                        out.append(v('nonce-reused', t, '%s used the nonce of %s again' % (who, cookies[sc])))
                    cookies[sc] = who
                elif w == WORDS[2][0]:
                    p = parts_of(line, 2, 6)
                    if p is None:
                        continue        # a failure notice
                    cc = strict(p[0])
                    if cc is None:
                        out.append(v('nonce-bad', t, '%s sent %s' % (who, line[:80])))
                    elif cc in cookies:
                        out.append(v('nonce-reused', t, '%s used the nonce of %s again' % (who, cookies[cc])))
                    cookies[cc] = who
                    if sc is not None and cc is not None and strict(p[1]) != expected(sec.at(node, t), 2, sc, cc):
                        out.append(v('proof-wrong', t, '%s sent a proof that does not verify' % who))
                elif w == WORDS[3][0]:
                    p = parts_of(line, 3, 5)
                    if p is None or p == ['FAIL']:
                        continue
                    if not proved:
                        out.append(v('proof-before-proof', t, '%s proved itself to a peer that had not' % who))
                    elif strict(p[0]) != expected(sec.at(node, t), 3, sc, cc):
                        out.append(v('proof-wrong', t, '%s sent a proof that does not verify' % who))
                elif w == WORDS[4][0]:
                    if line.split()[-1] == 'SUCCESS' and not authed:
                        out.append(v('trusted-unproved', t, '%s accepted a peer that had not proved the secret' % who))
                else:
                    if not authed:
                        st['hands.unproved_lines'] += 1
                        out.append(v('served-unproved', t, '%s sent %s to %s, which had not proved the secret'
                                     % (who, m.kind, m.dst)))
                    if w == 'STATUS' and side == 'server' and m.data.get('dcs_total') is not None:
                        counted.append((tick, t, node, m.data['dcs_total'] + m.data.get('sks_total', 0)))
    for tick, t, node, tot in counted:
        names = set(n for k, n in known if k <= tick)
        if tot > len(names):
            out.append(v('counted-unproved', t, '%s counts %d clients, %d proved the secret' % (node, tot, len(names))))
    c.hand_stats = st
    return out


def conn_server(c, m, side):
    'the node at one side of the connection of a message'
    ts = c.world.nodes['ts']
    srv = [n for n in (m.src, m.dst) if c.world.nodes[n].kind in ('ts',)]
    if not srv:
        srv = [n for n in (m.src, m.dst) if c.world.nodes[n].kind == 'adv']
    if not srv:
        return None
    s = srv[0]
    other = m.dst if m.src == s else m.src
    return s if side == 'server' else other


def quiet(c, silent_ok=()):
    'no process stopped by itself'
    out = []
    for t, node, inc, how, code in c.rec.exits:
        if how not in ('kill', 'power') and not node.startswith(('adv', 'tor')):
            out.append(v('node-stopped', t, '%s stopped (%s %s)' % (node, how, code)))
    return out


def closed(c, grace=5.0):
    'a stranger whose line is no valid handshake is disconnected'
    rec, out = c.rec, []
    st = c.strangers = {'strangers.connections': 0, 'strangers.impostors': 0, 'strangers.bad_lines': 0}
    sec = Secrets(c)
    adv = set(n.name for n in c.world.order if n.kind == 'adv')
    for t0, cl, srv, cid in rec.accepts:
        if cl not in adv and srv in adv:
            # somebody in the place of the tally server
            st['strangers.impostors'] += 1
            for m in rec.by_conn.get(cid, []):
                if m.dst != cl or m.got is None:
                    continue
                p1 = parts_of(m.text_got, 1, 5)
                if not (p1 and strict(p1[0])):
                    n = c.world.nodes[cl]
                    ends = [x for x in rec.closes.get(cid, []) if x[2] == cl and x[1] > m.got_tick]
                    if n.alive and n.incarnation == m.got_inc and not ends and c.world.now > m.got + grace:
                        out.append(v('stranger-kept', m.got, '%s keeps the connection %s open after %r'
                                     % (cl, cid, m.text_got[:50])))
                    break
            continue
        if cl not in adv or srv != 'ts':
            continue
        st['strangers.connections'] += 1
        ends = [x for x in rec.closes.get(cid, []) if x[2] == 'ts']
        sc, proved, bad = None, False, None
        ev = [(m.tick, 0, m) for m in rec.by_conn.get(cid, []) if m.src == 'ts']
        ev += [(m.got_tick, 1, m) for m in rec.by_conn.get(cid, []) if m.dst == 'ts' and m.got is not None]
        for tick, rcv, m in sorted(ev, key=lambda e: e[:2]):
            if not rcv:
                p = parts_of(m.text, 1, 5)
                sc = strict(p[0]) if p else sc
                continue
            p2, p4 = parts_of(m.text_got, 2, 6), parts_of(m.text_got, 4, 5)
            if p2:
                c2 = strict(p2[0])
                proved = bool(c2 and sc and c2 != sc and strict(p2[1]) == expected(sec.at('ts', m.got), 2, sc, c2))
            if len(m.text_got) > 200 or not (proved and (p2 or p4 == ['SUCCESS'])):
                bad = m
                break
        if bad is not None:
            st['strangers.bad_lines'] += 1
            alive = c.world.nodes['ts'].incarnation == bad.got_inc and c.world.nodes['ts'].alive
            if alive and not any(x[1] > bad.got_tick for x in ends) and c.world.now > bad.got + grace:
                out.append(v('stranger-kept', bad.got, 'the tally server keeps the connection %s open after %r'
                             % (cid, bad.text_got[:50])))
    return out


def overlong(c):
    'bytes without a line end: no more than a line is kept'
    out = []
    for cid, got in sorted(c.flooded.items()):
        ends = [x for x in c.rec.closes.get(cid, []) if x[2] == 'ts']
        if got['run'] > 202 and not ends and c.world.now > got['t'] + 5.0 and c.world.nodes['ts'].incarnation == got['inc']:
            out.append(v('flood-kept', got['t'], 'the tally server read %d bytes of an unfinished line on %s and kept it'
                         % (got['run'], cid)))
    return out


class Flood(object):
    'the length of the unfinished line at the tally server, for strangers'

    def __init__(self, c):
        self.c = c
        c.flooded = {}

    def on_recv(self, conn, end, data):
        if end.node.kind != 'ts' or conn.client.node.kind != 'adv':
            return
        f = self.c.flooded.setdefault(conn.id, {'run': 0, 't': 0, 'inc': end.node.incarnation, 'max': 0})
        i = data.rfind('\r\n')
        f['run'] = len(data) - i - 2 if i >= 0 else f['run'] + len(data)
        f['t'] = self.c.world.now


# -- generators ------------------------------------------------------------------------------------------------
def bad_proof(r):
    'a handshake message 2 by someone who lacks something'
    return gen.pick(r, [
        {'key': 'wrong'}, {'key': 'zero'}, {'key': 'empty'}, {'flip': int(r.random() * 256)}, {'maclen': gen.pick(r, [0, 1, 8, 16, 31, 33, 64])},
        {'as': 3}, {'as': 4}, {'prefix': {'version': 'PRIVCOUNT-099'}}, {'prefix': {'role': 'SERVER'}},
        {'prefix': {'how': 'HMAC-MD5'}}, {'ccookie': 'same'}, {'n': gen.pick(r, [0, 1, 16, 31, 33, 64])}, {'swap': True},
        {'old': True}, {'key': 'wrong', 'flip': 3}])


def message(r):
    k = r.random()
    if k < 0.35:
        return ['h2', bad_proof(r)]
    if k < 0.5:
        return ['replay', {'n': gen.pick(r, [2, 2, 2, 3, 1]), 'back': int(r.random() * 6)}]
    if k < 0.56:
        return ['reflect', {}]
    if k < 0.75:
        return ['h4', {'word': gen.pick(r, ['SUCCESS', 'SUCCESS', 'FAIL', 'success'])}]
    if k < 0.88:
        return ['status', {'name': 'EVIL%d' % int(r.random() * 3), 'type': gen.pick(r, ['DataCollector', 'ShareKeeper'])}]
    return ['line', gen.pick(r, ['START SUCCESS {}', 'STOP SUCCESS {"Counts": {}}', 'CHECKIN SUCCESS', 'STATUS 1 {}',
                                 'HANDSHAKE2-CLIENT-COOKIE-HMAC', 'HANDSHAKE', 'HANDSHAKE9 x y z w',
                                 'HANDSHAKE4-CLIENT-VERIFY SUCCESS', 'START', 'STOP FAIL'])]


def intrusion(r):
    'the steps of one connection'
    steps = []
    if r.random() < 0.9:
        steps.append(['expect', 'HANDSHAKE1'])
    n = gen.pick(r, [1, 2, 3, 4])
    msgs = [message(r) for _ in range(n)]
    k = r.random()
    if k < 0.5:
        # a wrong proof, then as if it had been right
        msgs = [['h2', bad_proof(r)] if r.random() < 0.7 else ['replay', {'n': 2, 'back': int(r.random() * 5)}]]
        if r.random() < 0.85:
            msgs.append(['h4', {}])
        msgs += [['status', {'name': 'EVIL%d' % int(r.random() * 3), 'type': gen.pick(r, ['DataCollector', 'ShareKeeper'])}]]
    elif k < 0.65:
        msgs = [['h4', {}], ['status', {'name': 'EVIL0'}]] + msgs[:1]
    if r.random() < 0.5:
        steps.append(['all', msgs])
    else:
        for m in msgs:
            steps.append(m)
            if r.random() < 0.3:
                steps.append(['sleep', gen.pick(r, [0.0, 0.2, 2.0])])
    steps += [['sleep', gen.pick(r, [1.0, 6.0])], [gen.pick(r, ['close', 'abort'])]] if r.random() < 0.7 else []
    return steps


def impostor(r, t):
    s = {'h1': gen.pick(r, ['ok', 'ok', 'ok', 'replay', 'replay', 'same', 'short', 'none', 'garbage',
                           'h3first', 'h3first']),
         'h3': gen.pick(r, ['wrong', 'reflect', 'zero', 'short', 'nothing', 'replay', 'replay', 'whole', 'fail', 'success',
                            'skip', 'skip', 'h4', 'silent', 'wrong']),
         'key': gen.pick(r, ['wrong', 'zero', 'empty']),
         'then': gen.sample(r, ['status', 'start', 'STOP {"send_counters": true}', 'CHECKIN 1'], 1 + int(r.random() * 3))}
    if r.random() < 0.2:
        s['h3'], s['key'] = 'wrong', 'right'
        s['prefix'] = gen.pick(r, [{'version': 'PRIVCOUNT-099'}, {'role': 'CLIENT'}, {'how': 'HMAC-MD5'}])
    return {'op': 'impostor', 't': t, 'node': 'adv0', 'd': gen.uni(r, 6, 20), 'script': s}


GARBAGE = ['', ' ', '\r\n', '\r\n\r\n\r\n', 'GET / HTTP/1.1\r\nHost: x\r\n\r\n', '\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03',
           'HANDSHAKE2-CLIENT-COOKIE-HMAC PRIVCOUNT-100 CLIENT HMAC-SHA256 a b\r\n',
           'HANDSHAKE2-CLIENT-COOKIE-HMAC PRIVCOUNT-100 CLIENT HMAC-SHA256 %s %s\r\n' % ('A' * 43 + '=', 'B' * 43 + '='),
           'HANDSHAKE2-CLIENT-COOKIE-HMAC PRIVCOUNT-100 CLIENT HMAC-SHA256 %s %s\r\n' % ('!' * 44, '*' * 44),
           'HANDSHAKE2-CLIENT-COOKIE-HMAC PRIVCOUNT-100 CLIENT HMAC-SHA256 %s %s\r\n' % ('A' * 44, 'A' * 41 + '==='),
           'HANDSHAKE2-CLIENT-COOKIE-HMAC PRIVCOUNT-100 CLIENT HMAC-SHA256\r\n', 'HANDSHAKE2-CLIENT-COOKIE-HMAC\r\n',
           'HANDSHAKE3-SERVER-HMAC PRIVCOUNT-100 SERVER HMAC-SHA256 FAIL\r\n',
           'HANDSHAKE2-CLIENT-COOKIE-HMAC PRIVCOUNT-100 CLIENT HMAC-SHA256 FAIL\r\n',
           'HANDSHAKE4-CLIENT-VERIFY PRIVCOUNT-100 CLIENT HMAC-SHA256 FAIL\r\n', 'HANDSHAKE1-SERVER-COOKIE x\r\n',
           'HANDSHAKE\r\n', 'STATUS\r\n', 'STATUS x {\r\n', 'START {}\r\n', 'STOP null\r\n', 'START SUCCESS {"a": \r\n', 'CHECKIN\r\n',
           'STOP SUCCESS []\r\n', '\xff\xfe\xfd\r\n', '{0} {1} %s %d\r\n', '\0\0\0\0\r\n', 'HANDSHAKE2\xc3\xa9 \xe2\x98\x83\r\n',
           'HANDSHAKE2-CLIENT-COOKIE-HMAC PRIVCOUNT-100 CLIENT HMAC-SHA256 \xc3\xa9 \xff\r\n', 'HANDSHAKE4-CLIENT-VERIFY {} {0.x}\r\n']


B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def blob(r):
    'something where a base64 field should be'
    n = gen.pick(r, [44] * 6 + [0, 1, 40, 43, 45, 88])
    bad = gen.pick(r, [0, 0, 1, 2, 3, n // 2, n])
    s = [B64[int(r.random() * 64)] for _ in range(n)]
    for i in gen.sample(r, range(n), min(bad, n)):
        s[i] = gen.pick(r, ['!', '*', '-', '_', '=', '\xff', '.', '{'])
    pad = gen.pick(r, [0, 1, 1, 1, 2, 3])
    if n >= pad:
        s[n - pad:] = '=' * pad
    return ''.join(s)


def malformed(r, kinds):
    'a handshake line that is nearly right'
    n = gen.pick(r, kinds)
    w, role = WORDS[n]
    p = [w, VERSION, role, 'HMAC-SHA256'] + [blob(r) for _ in range({1: 1, 2: 2, 3: 1, 4: 0}[n])]
    if n == 4:
        p.append('SUCCESS')
    k = r.random()
    if k < 0.3:
        p = p[:int(r.random() * (len(p) + 1))]
    elif k < 0.4:
        p.append(gen.pick(r, ['x', blob(r), 'SUCCESS', '']))
    elif k < 0.55:
        i = int(r.random() * len(p))
        p[i] = gen.pick(r, ['', p[i].lower(), p[i][:-1], p[i] + 'x', 'FAIL', '{}', '\xe9', '0', ' '])
    elif k < 0.6:
        p.insert(int(r.random() * len(p)), gen.pick(r, ['', 'x', '\t']))
    return ' '.join(p) + gen.pick(r, ['\r\n'] * 5 + ['\n\r\n', ' \r\n'])


def nuisance(r):
    'one connection of a port scanner, a broken or a hostile client'
    steps = []
    if r.random() < 0.5:
        steps.append(['expect', 'HANDSHAKE1'])
    k = r.random()
    if k < 0.35:
        for _ in range(gen.pick(r, [1, 1, 2, 3])):
            steps.append(['raw', (malformed(r, [1, 2, 2, 2, 3, 4]) if r.random() < 0.6
                                  else gen.pick(r, GARBAGE)).decode('latin-1')])
    elif k < 0.5:
        steps.append(['bytes', {'seed': int(r.random() * 1e9), 'n': gen.pick(r, [1, 10, 150, 199, 200, 201, 202, 203, 1000]),
                                'end': r.random() < 0.6}])
    elif k < 0.68:
        steps.append(['flood', {'n': gen.pick(r, [150, 199, 200, 201, 202, 205, 300, 16384, 70000, 300000]),
                                'end': r.random() < 0.5, 'ch': gen.pick(r, ['A', ' ', '\r', '\n', 'H'])}])
    elif k < 0.75:
        # an unfinished line that grows
        for _ in range(gen.pick(r, [3, 8, 30])):
            steps += [['flood', {'n': gen.pick(r, [20, 90, 150])}], ['sleep', 0.2]]
    elif k < 0.82:
        pass            # silence
    else:
        steps += intrusion(r)
    x = r.random()
    if x < 0.4:
        steps += [['sleep', gen.pick(r, [0.0, 0.5, 5.0, 40.0])], [gen.pick(r, ['close', 'abort'])]]
    return steps


class C06(Profile):
    id = 'C06'

    def gen(self, seed, tier):
        r = self.rng(seed)
        p = gen.base(r, seed, counters=gen.sample(r, gen.FIXED, 1), rounds=2, dcs=gen.pick(r, [1, 2]),
                     sks=gen.pick(r, [1, 2]))
        p['net']['chunk'] = 0
        p['advs'] = 1
        p['boot']['adv0'] = 0.0
        for d in p['dcs']:
            d['tor']['rate'] = 0.2
        n = gen.pick(r, [20, 40, 60])
        if r.random() < 0.25:
            # the attacker would be needed to reach the threshold
            p['ts']['dc_threshold'] = len(p['dcs']) + 1
            p['short'] = True
        if r.random() < 0.2:
            p['handshake_of'] = {gen.pick(r, gen.names(p, 'sk dc')): 'other.yaml'}
        for _ in range(n):
            p['ops'].append({'op': 'attack', 't': gen.uni(r, 0.5, p['end'] - 8), 'node': 'adv0', 'steps': intrusion(r)})
        if r.random() < 0.6:
            t = gen.uni(r, 8, 20)
            for _ in range(gen.pick(r, [1, 2, 3])):
                op = impostor(r, round(t, 3))
                p['ops'].append(op)
                t += op['d'] + gen.uni(r, 3, 25)
        else:
            if r.random() < 0.4:
                # the operator changes the secret everywhere at once
                t = gen.uni(r, 10, p['end'] - 20)
                p['ops'].append({'op': 'raw', 't': t, 'file': 'handshake.yaml',
                                 'text': hashlib.sha256('new %d' % seed).digest().encode('base64').strip()})
            if r.random() < 0.4:
                gen.add_faults(r, p, ['kill_dc', 'kill_sk', 'kill_ts', 'reset', 'partition', 'slow'],
                               1 + int(r.random() * 3), 2, p['end'] - 20)
        p['ops'].sort(key=lambda o: o.get('t', 0))
        return p

    def check(self, c):
        out = proofs(c)
        if c.plan.get('short'):
            for m in c.rec.msgs:
                if m.kind == 'START' and m.src == 'ts':
                    out.append(v('started-with-stranger', m.t, 'a round started that needs a client that never proved'
                                 ' the secret'))
        return out

    def probes(self, c):
        d = round_probes(c)
        d.update(c.hand_stats)
        return d


class C07(Profile):
    id = 'C07'

    def gen(self, seed, tier):
        r = self.rng(seed)
        p = gen.base(r, seed, rounds=1, counters=sorted(gen.sample(r, gen.FIXED, 1 + int(r.random() * 3))),
                     dcs=gen.pick(r, [1, 2]), sks=gen.pick(r, [1, 2]))
        p['net']['chunk'] = gen.pick(r, [0, 0, 1, 7, 64, 400])
        p['net']['lat'] = gen.pick(r, [[0.001, 0.05], [0.002, 0.3]])
        p['advs'] = 1
        p['boot']['adv0'] = 0.0
        p['boot']['ts'] = 0.0
        if r.random() < 0.15:
            p['bins'] = {'ExitStreamByteHistogram': [[float(i), float(i + 1)] for i in range(gen.pick(r, [300, 1500]))]}
            p['counters'] = sorted(set(p['counters']) | set(['ExitStreamByteHistogram']))
        n = gen.pick(r, [10, 40, 80])
        burst = gen.uni(r, 5, p['end'] - 10)
        for i in range(n):
            t = gen.uni(r, 0.5, p['end'] - 8) if i % 3 else burst + 0.001 * i
            p['ops'].append({'op': 'attack', 't': round(t, 3), 'node': 'adv0', 'steps': nuisance(r)})
        if r.random() < 0.35:
            op = impostor(r, gen.uni(r, 8, 40))
            if r.random() < 0.6:
                op['script'] = {'h1': 'raw', 'raw': malformed(r, [1, 1, 3, 3, 2, 4]).decode('latin-1') if r.random() < 0.6
                                else gen.pick(r, GARBAGE + ['A' * 300, 'HANDSHAKE1-SERVER-COOKIE ' + 'B' * 180 + '\r\n',
                                                                           'A' * 100000, 'HANDSHAKE3-SERVER-HMAC x\r\n',
                                                                           'STATUS 1 {}\r\n']).decode('latin-1'),
                                'h3': 'wrong', 'close': r.random() < 0.5}
            p['ops'].append(op)
            p['end'] += int(op['d']) + 30
            p['imposed'] = True
        p['ops'].sort(key=lambda o: o.get('t', 0))
        return p

    def attach(self, c):
        c.world.watchers.append(Flood(c))

    def check(self, c):
        out = quiet(c) + closed(c) + overlong(c) + oracles.tally_exact(c) + oracles.all_or_nothing(c)
        # nothing but strangers here: every round is published, and there is one
        for r in c.rec.rounds:
            if r.how == 'outcome' and 'tallies' not in r.files and not c.plan.get('imposed'):
                out.append(v('round-disturbed', r.end, 'round %d was not published' % r.n))
        if not any('tallies' in r.files for r in c.rec.rounds):
            out.append(v('no-round', c.world.now, 'no round was published'))
        ours = set(n.name for n in c.sks + c.dcs)
        if not c.plan.get('imposed'):
            for t, cl, srv, cid in c.rec.accepts:
                if cl in ours and srv == 'ts' and t < c.world.now - 30:
                    kinds = [m.kind for m in c.rec.by_conn.get(cid, []) if m.got is not None]
                    if 'STATUS' not in kinds:
                        out.append(v('honest-refused', t, '%s did not complete the handshake on %s' % (cl, cid)))
        return out

    def probes(self, c):
        d = round_probes(c)
        d.update(c.strangers)
        return d
