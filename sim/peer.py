'''
Scripted peers that speak the PrivCount protocol from its documentation (the protocol module's handshake description
and doc/), not with the repository's code: a tally server that sends whatever a plan tells it to, and clients that
attack the real tally server.
'''
import hashlib
import hmac
import json
import os

from twisted.internet import protocol, reactor
from twisted.protocols.basic import LineOnlyReceiver

VERSION = 'PRIVCOUNT-100'
WORDS = {1: ('HANDSHAKE1-SERVER-COOKIE', 'SERVER'), 2: ('HANDSHAKE2-CLIENT-COOKIE-HMAC', 'CLIENT'),
         3: ('HANDSHAKE3-SERVER-HMAC', 'SERVER'), 4: ('HANDSHAKE4-CLIENT-VERIFY', 'CLIENT')}


def b64(s):
    return s.encode('base64').replace('\n', '')


def unb64(s):
    try:
        return s.decode('base64')
    except Exception:
        return None


def prefix(n, version=VERSION, role=None, how='HMAC-SHA256'):
    w, r = WORDS[n]
    return ' '.join((w, version, role or r, how))


def mac(secret, n, scookie, ccookie, **kw):
    return hmac.new(secret, prefix(n, **kw) + scookie + ccookie, hashlib.sha256).digest()


class Handshake(object):
    'what one side of an honest handshake says and accepts'

    def __init__(self, secret):
        self.secret = secret
        self.scookie = self.ccookie = None

    def h1(self):
        self.scookie = os.urandom(32)
        return '%s %s' % (prefix(1), b64(self.scookie))

    def h2(self, line):
        self.scookie = unb64(line.split(' ')[4])
        self.ccookie = os.urandom(32)
        return '%s %s %s' % (prefix(2), b64(self.ccookie), b64(mac(self.secret, 2, self.scookie, self.ccookie)))

    def h3(self, line):
        parts = line.split(' ')
        if len(parts) != 6 or ' '.join(parts[:4]) != prefix(2):
            return None
        self.ccookie = unb64(parts[4])
        if self.ccookie is None or unb64(parts[5]) != mac(self.secret, 2, self.scookie, self.ccookie):
            return None
        return '%s %s' % (prefix(3), b64(mac(self.secret, 3, self.scookie, self.ccookie)))

    def h4(self, line=None):
        return prefix(4) + ' SUCCESS'


def node_secret(cluster, name):
    with open(cluster.path(cluster.plan.get('handshake_of', {}).get(name, 'handshake.yaml'))) as f:
        return f.read().strip()


def the_secret(text):
    'the handshake key as nodes use it: the decoded file'
    return text.decode('base64')


# -- a tally server that follows a script -------------------------------------------------------------
class RogueConn(LineOnlyReceiver):
    MAX_LENGTH = 1 << 28

    def connectionMade(self):
        r = self.factory.rogue
        self.r, self.hs, self.state, self.name = r, Handshake(r.secret), 'hs', None
        self.node = self.transport.conn.client.node.name
        self.sent = None
        self.sendLine(self.hs.h1())

    def lineReceived(self, line):
        kind = line.split(' ', 1)[0]
        if self.state == 'hs':
            if kind == WORDS[2][0]:
                reply = self.hs.h3(line)
                if reply is None:
                    return self.transport.loseConnection()
                return self.sendLine(reply)
            if line == prefix(4) + ' SUCCESS':
                self.state = 'on'
                return self.status()
            return self.transport.loseConnection()
        if kind == 'STATUS':
            try:
                self.name = json.loads(line.split(' ', 2)[2]).get('name')
            except ValueError:
                pass
            self.r.status_of[self.node] = line
            return self.command()
        if kind in ('START', 'STOP'):
            self.r.answer(self.node, line, self.sent)
            self.sent = None
            return self.status()
        if kind == 'CHECKIN':
            return self.transport.loseConnection()

    def status(self):
        self.sendLine('STATUS %r %s' % (self.r.now(), json.dumps(self.r.server_status())))

    def command(self):
        cmd = self.r.next(self.node)
        if cmd is None:
            return self.sendLine('CHECKIN %d' % self.r.spec.get('checkin', 2))
        self.sent = cmd
        self.sendLine(self.r.render(self.node, cmd))


class Rogue(object):
    def __init__(self, cluster, spec):
        self.c, self.spec = cluster, spec
        self.secret = the_secret(node_secret(cluster, 'ts'))
        self.queue = {}
        self.status_of = {}
        self.shares = {}            # dc -> data of its last START SUCCESS
        self.old = []               # shares of earlier rounds

    def run(self):
        f = protocol.ServerFactory()
        f.protocol, f.rogue = RogueConn, self
        f.doStart = f.doStop = lambda: None
        reactor.listenSSL(20001, f, None)

    def now(self):
        return reactor.seconds()

    def server_status(self):
        n = len(self.c.plan['dcs'])
        k = len(self.c.plan['sks'])
        return {'state': 'idle', 'time': self.now(), 'privcount_version': '3.1.0', 'dcs_idle': n, 'dcs_active': 0,
                'dcs_total': n, 'dcs_required': n, 'dcs_control': 0, 'dcs_event': 0, 'sks_idle': k, 'sks_active': 0,
                'sks_total': k, 'sks_required': k, 'completed_phases': 0, 'continue': True,
                'delay_until': self.now()}

    def next(self, node):
        q = self.queue.get(node) or []
        if not q:
            return None
        if q[0]['cmd'] == 'start' and node.startswith('sk') and 'shares' not in q[0] and \
           not all(d in self.shares for d in q[0].get('dcs', [])):
            return None
        return q.pop(0)

    def answer(self, node, line, cmd):
        if line.startswith('START SUCCESS') and node.startswith('dc'):
            try:
                data = json.loads(line.split(' ', 2)[2])
            except ValueError:
                return
            if node in self.shares:
                self.old.append(self.shares[node])
            self.shares[node] = data

    def counters(self, cmd):
        names = cmd.get('counters', self.c.plan['counters'])
        bins = self.c.plan.get('bins') or {}
        from cluster import COUNTERS
        return dict((n, {'bins': bins.get(n, COUNTERS[n])}) for n in names)

    def noise(self, cmd):
        names = cmd.get('counters', self.c.plan['counters'])
        sig = dict((n, 0.0) for n in names)
        sig.update(self.c.plan.get('sigmas', {}))
        sig.update(cmd.get('sigmas', {}))
        return {'counters': dict((n, {'sigma': float(sig[n])}) for n in names if sig.get(n) is not None)}

    def render(self, node, cmd):
        if 'line' in cmd:
            return str(cmd['line'])
        if cmd['cmd'] == 'stop':
            return 'STOP ' + json.dumps(cmd.get('data', {'send_counters': cmd.get('send', True)}))
        plan = self.c.plan
        cfg = {'counters': self.counters(cmd), 'noise': self.noise(cmd),
               'noise_weight': self.c.ts_conf()['noise_weight'], 'dc_threshold': len(plan['dcs']),
               'collect_period': cmd.get('collect_period', 20)}
        if node.startswith('dc'):
            cfg['defer_time'] = cmd.get('defer', 0.5)
            cfg['sharekeepers'] = self.offered(cmd)
        else:
            cfg['shares'] = self.shares_for(node, cmd)
        cfg.update(cmd.get('set', {}))
        for k in cmd.get('drop', []):
            cfg.pop(k, None)
        return 'START ' + json.dumps(cfg)

    def offered(self, cmd):
        import recorder
        keys = cmd.get('sks')
        if keys is None:
            keys = [s['key'] for s in self.c.plan['sks']]
        out = {}
        for k in keys:
            # [named as, key offered] or key
            a, b = (k, k) if not isinstance(k, list) else k
            uid = recorder.DIGESTS[a] if isinstance(a, int) else str(a)
            out[uid] = b64(recorder.PUBLIC[b])
        return out

    def shares_for(self, node, cmd):
        import recorder
        uid = recorder.DIGESTS[self.c.plan['sks'][int(node[2:])]['key']]
        if 'shares' in cmd:
            return cmd['shares']
        out = []
        for dc in cmd.get('dcs') or sorted(self.shares):
            if uid in self.shares[dc]:
                out.append(json.loads(json.dumps(self.shares[dc][uid])))
        return tamper_shares(out, cmd.get('tamper'), self, uid)


def tamper_shares(shares, t, rogue, uid):
    'what a dishonest or faulty tally server may do to the shares it passes on'
    import recorder
    if not t or not shares:
        return shares
    kind, i = t['kind'], t.get('i', 0) % len(shares)
    s = shares[i]
    if kind == 'flip':
        # one character of the encrypted secret, at a place given as a fraction
        sec = s['secret']
        text = sec if isinstance(sec, basestring) else None
        if text is None:
            k = sorted(sec)[t.get('field', 0) % len(sec)]
            text = sec[k]
        raw = unb64(text)
        p = int(t.get('at', 0.5) * len(raw)) % len(raw)
        raw = raw[:p] + chr(ord(raw[p]) ^ (1 << t.get('bit', 0) % 8)) + raw[p + 1:]
        if isinstance(sec, basestring):
            s['secret'] = b64(raw)
        else:
            sec[k] = b64(raw)
    elif kind == 'cut':
        sec = s['secret']
        if isinstance(sec, basestring):
            s['secret'] = sec[:int(len(sec) * t.get('at', 0.5))]
        else:
            k = sorted(sec)[t.get('field', 0) % len(sec)]
            sec[k] = sec[k][:int(len(sec[k]) * t.get('at', 0.5))]
    elif kind == 'other-sk':
        # the share meant for another keeper
        for dc in sorted(rogue.shares):
            for other in sorted(rogue.shares[dc]):
                if other != uid:
                    shares[i] = json.loads(json.dumps(rogue.shares[dc][other]))
                    return shares
    elif kind == 'craft':
        # rewritten by somebody who knows the public key: another structure, properly encrypted
        key = recorder.DIGESTS.index(uid)
        try:
            values, _ = recorder.open_share(key, s['secret'])
        except Exception:
            return shares
        names = sorted(values)
        n = names[t.get('counter', 0) % len(names)]
        how = t['how']
        if how == 'counter':
            del values[n]
        elif how == 'bin':
            values[n]['bins'].pop()
        elif how == 'nobins':
            values[n].pop('bins')
        elif how == 'extra-bin':
            values[n]['bins'].append([0.0, 1.0, 5])
        elif how == 'short':
            values[n]['bins'][0] = values[n]['bins'][0][:2]
        elif how == 'empty':
            values = {}
        s['secret'] = recorder.seal(key, values)
    elif kind == 'plain':
        s['secret'] = json.dumps(rogue.counters({}))
    elif kind == 'no-secret':
        s.pop('secret', None)
    elif kind == 'empty':
        s['secret'] = ''
    return shares


# -- clients that attack the tally server -----------------------------------------------------------------
class AdvConn(LineOnlyReceiver):
    'runs a list of steps; each step may wait for a line'
    MAX_LENGTH = 1 << 28

    def connectionMade(self):
        self.adv = self.factory.adv
        self.steps = list(self.factory.steps)
        self.hs = Handshake(self.adv.secret)
        self.lines = []
        self.adv.conns.append(self)
        self.go()

    def lineReceived(self, line):
        self.lines.append(line)
        self.adv.seen.append((reactor.seconds(), self.factory.tag, line))
        self.go(line)

    def connectionLost(self, reason):
        self.adv.lost.append((reactor.seconds(), self.factory.tag))
        self.steps = []

    def go(self, line=None):
        while self.steps:
            s = self.steps[0]
            if s[0] == 'expect':
                if line is None:
                    return
                got, line = line, None
                if got.startswith(s[1]):
                    self.steps.pop(0)
                    continue
                return
            self.steps.pop(0)
            if s[0] == 'sleep':
                reactor.callLater(s[1], self.go)
                return
            if s[0] == 'close':
                self.transport.loseConnection()
                return
            if s[0] == 'abort':
                self.transport.abortConnection()
                return
            if s[0] == 'all':
                # several messages in one segment
                parts = [self.adv.make(self, x) for x in s[1]]
                data = ''.join(x for x in parts if x is not None)
            else:
                data = self.adv.make(self, s)
            if data is not None:
                self.transport.write(data)
                self.adv.c.world.count('adv.' + s[0])


class Adversary(object):
    def __init__(self, cluster, name):
        self.c, self.name = cluster, name
        self.secret = the_secret(node_secret(cluster, 'ts'))
        self.conns, self.seen, self.lost = [], [], []
        self.n = 0

    def run(self):
        pass

    def attack(self, steps):
        f = protocol.ClientFactory()
        f.protocol, f.adv, f.steps = AdvConn, self, steps
        self.n += 1
        f.tag = '%s.%d' % (self.name, self.n)
        f.doStart = f.doStop = lambda: None
        reactor.connectSSL('10.0.0.1', 20001, f, None)

    def key(self, which):
        return {'right': self.secret, 'wrong': hashlib.sha256('no idea').digest(), 'zero': '\0' * 32,
                'empty': ''}[which]

    def overheard(self, n, conn=None):
        'handshake lines of a kind seen on the wire (TLS would hide them: a stronger adversary than the real one)'
        w = WORDS[n][0]
        out = [m.text for m in self.c.rec.msgs if m.kind == w and m.conn != conn and len(m.text.split(' ')) > 4]
        return out

    def make(self, p, s):
        kind, a = s[0], (s[1] if len(s) > 1 else {})
        nl = '\r\n'
        if kind == 'raw':
            return a.encode('latin-1')
        if kind == 'line':
            return str(a) + nl
        if kind == 'flood':
            return str(a.get('ch', 'A')) * a['n'] + (nl if a.get('end') else '')
        if kind == 'bytes':
            # arbitrary bytes from a seed of the plan
            from simcore import Rng
            r = Rng(a['seed'])
            return ''.join(chr(r.randrange(256)) for _ in range(a['n'])) + (nl if a.get('end') else '')
        h1 = [l for l in p.lines if l.startswith(WORDS[1][0])]
        scookie = unb64(h1[-1].split(' ')[4]) if h1 else '\0' * 32
        if kind == 'h2':
            ccookie = os.urandom(a.get('n', 32))
            if a.get('ccookie') == 'same':
                ccookie = scookie
            p.ccookie = ccookie
            kw = dict((k, str(v)) for k, v in a.get('prefix', {}).items())
            m = mac(self.key(a.get('key', 'right')), a.get('as', 2), scookie if not a.get('old') else '\1' * 32,
                    ccookie, **kw)
            if a.get('swap'):
                m = mac(self.key(a.get('key', 'right')), 2, ccookie, scookie)
            m = m[:a.get('maclen', 32)] if a.get('maclen', 32) <= 32 else m + '\0' * (a['maclen'] - 32)
            if a.get('flip') is not None:
                b = a['flip'] % (8 * len(m))
                m = m[:b // 8] + chr(ord(m[b // 8]) ^ (1 << b % 8)) + m[b // 8 + 1:]
            return '%s %s %s%s' % (prefix(2, **kw), b64(ccookie), b64(m), nl)
        if kind == 'h4':
            return prefix(4) + ' ' + str(a.get('word', 'SUCCESS')) + nl
        if kind == 'replay':
            old = self.overheard(a['n'], p.transport.conn.id)
            return old[-1 - a.get('back', 0) % len(old)] + nl if old else None
        if kind == 'reflect':
            # the server's own messages sent back
            return p.lines[-1] + nl if p.lines else None
        if kind == 'status':
            st = {'type': a.get('type', 'DataCollector'), 'name': a.get('name', 'DC0'), 'state': a.get('state', 'idle'),
                  'privcount_version': '3.1.0'}
            st.update(a.get('set', {}))
            for k in a.get('drop', []):
                st.pop(k, None)
            return 'STATUS %r %s%s' % (reactor.seconds(), json.dumps(st), nl)
        raise ValueError(kind)


# -- an impostor in the place of the tally server ---------------------------------------------------------
class ImpostorConn(LineOnlyReceiver):
    MAX_LENGTH = 1 << 28

    def connectionMade(self):
        self.imp = self.factory.imp
        self.s = self.factory.script
        self.n = 0
        h1 = self.s.get('h1', 'ok')
        self.cookie = os.urandom(32)
        if h1 == 'same':
            self.cookie = '\7' * 32
        elif h1 == 'short':
            self.cookie = self.cookie[:16]
        if h1 == 'replay':
            old = self.imp.overheard(1, self.transport.conn.id)
            if old:
                self.cookie = unb64(old[-1].split(' ')[4])
        if h1 == 'none':
            return self.then()
        if h1 == 'h3first':
            self.sendLine('%s %s' % (prefix(3), b64(os.urandom(32))))
            return self.then()
        if h1 == 'garbage':
            self.sendLine(prefix(1) + ' !!!')
        elif h1 == 'raw':
            self.transport.write(self.s['raw'].encode('latin-1'))
        else:
            self.sendLine('%s %s' % (prefix(1), b64(self.cookie)))
        if self.s.get('h3') == 'skip':
            self.then()

    def lineReceived(self, line):
        parts = line.split(' ')
        if parts[0] != WORDS[2][0] or len(parts) != 6 or self.s.get('h3') == 'skip':
            if self.n:
                self.imp.c.world.count('imp.obeyed' if parts[0] in ('STATUS', 'START', 'STOP') else 'imp.refused')
            return
        self.n += 1
        cc, m2 = unb64(parts[4]), unb64(parts[5])
        h3 = self.s.get('h3', 'wrong')
        self.imp.c.world.count('imp.' + h3)
        m = mac(self.imp.key(self.s.get('key', 'wrong')), 3, self.cookie, cc)
        if h3 == 'reflect':
            m = m2
        elif h3 == 'short':
            m = m[:8]
        elif h3 == 'zero':
            m = '\0' * 32
        elif h3 == 'nothing':
            m = ''
        elif h3 == 'replay':
            old = self.imp.overheard(3, self.transport.conn.id)
            if old:
                m = unb64(old[-1].split(' ')[4])
        if h3 == 'whole':
            self.sendLine(line)
        elif h3 == 'fail':
            self.sendLine(prefix(3) + ' FAIL')
        elif h3 == 'success':
            self.sendLine(prefix(3) + ' SUCCESS')
        elif h3 == 'h4':
            self.sendLine(prefix(4) + ' SUCCESS')
        elif h3 != 'silent':
            self.sendLine('%s %s' % (prefix(3, **dict((k, str(v)) for k, v in self.s.get('prefix', {}).items())), b64(m)))
        self.then()

    def then(self):
        self.n += 1
        for x in self.s.get('then', []):
            if x == 'status':
                x = 'STATUS %r %s' % (reactor.seconds(), json.dumps({'state': 'idle', 'time': reactor.seconds()}))
            elif x == 'start':
                x = self.imp.start_line(self.transport.conn.client.node.name)
            self.sendLine(str(x))
        if self.s.get('close', True):
            reactor.callLater(0.5, self.transport.loseConnection)


class Impostor(Adversary):
    'an adversary process that can take the place of the tally server'

    def take_over(self, script):
        f = protocol.ServerFactory()
        f.protocol, f.imp, f.script = ImpostorConn, self, script
        f.doStart = f.doStop = lambda: None
        self.port = reactor.listenSSL(20001, f, None)

    def give_up(self):
        self.port.stopListening()

    def start_line(self, node):
        r = Rogue.__new__(Rogue)
        r.c, r.spec, r.shares = self.c, {}, {}
        try:
            return r.render(node, {'cmd': 'start', 'shares': []})
        except Exception:
            return 'START {}'
