'''
A simulated Tor process with a control port (written from the control protocol specification and
doc/TorEvents.markdown, independent of the repository's own protocol code), and the events it emits.
'''
import hashlib
import hmac
import os

from twisted.internet import protocol, reactor
from twisted.protocols.basic import LineOnlyReceiver

from simcore import Rng, subseed, EPOCH
import events

SERVER_KEY = 'Tor safe cookie authentication server-to-controller hash'
CLIENT_KEY = 'Tor safe cookie authentication controller-to-server hash'


def unq(s):
    s = s.strip()
    if s.startswith('"') and s.endswith('"') and len(s) >= 2:
        return s[1:-1].replace('\\"', '"').replace('\\\\', '\\')
    return None


class TorConn(LineOnlyReceiver):
    MAX_LENGTH = 1 << 22

    def __init__(self, tor):
        self.tor = tor
        self.authed = False
        self.events = set()
        self.server_hash_client = None
        self.closed = False
        self.before_auth = []

    def connectionMade(self):
        self.tor.conns.append(self)
        self.world = self.tor.world
        self.cid = self.transport.conn.id
        self.tor.note('tor_connect', self)
        f = self.tor.fault('banner')
        if f:
            self.sendLine(str(f.get('line', '500 garbage')))
        self.chatter('connect')

    def connectionLost(self, reason):
        self.closed = True
        if self in self.tor.conns:
            self.tor.conns.remove(self)
        self.tor.note('tor_lost', self)

    def out(self, line):
        self.sendLine(line)

    def chatter(self, where):
        'lines that were not asked for, before authentication'
        f = self.tor.fault('chatter', where)
        for l in (f or {}).get('lines', []):
            if not self.closed:
                self.sendLine(str(l))

    def bye(self, line=None):
        if line:
            self.out(line)
        self.closed = True
        self.transport.loseConnection()

    def lineReceived(self, line):
        if self.closed:
            return
        t = self.tor
        t.note('tor_cmd', self, line)
        parts = line.split(' ')
        cmd = parts[0]
        if cmd == 'QUIT':
            return self.bye('250 closing connection')
        if not self.authed:
            return self.unauth(cmd, parts, line)
        f = t.fault('reply', cmd)
        if f:
            if f['kind'] == 'error':
                return self.out('551 simulated internal error')
            if f['kind'] == 'silent':
                return
            if f['kind'] == 'close':
                return self.bye()
            if f['kind'] == 'garbage':
                return self.out('999 what')
        if cmd == 'SETCONF':
            return self.setconf(parts[1:])
        if cmd == 'GETCONF':
            return self.getconf(parts[1])
        if cmd == 'GETINFO':
            return self.getinfo(parts[1])
        if cmd == 'SETEVENTS':
            for e in parts[1:]:
                if e and not e.startswith('PRIVCOUNT_'):
                    return self.out('552 Unrecognized event "%s"' % e)
            self.events = set(e for e in parts[1:] if e)
            return self.out('250 OK')
        if cmd == 'SET_TMODEL':
            if len(parts) > 1 and parts[1] == 'TRUE':
                t.tmodel = ' '.join(parts[2:])
            else:
                t.tmodel = None
            return self.out('250 OK')
        self.out('510 Unrecognized command "%s"' % cmd)

    def unauth(self, cmd, parts, line):
        t = self.tor
        self.chatter(cmd)
        if self.closed:
            return
        if cmd == 'PROTOCOLINFO':
            m = ','.join(t.auth)
            cf = ''
            if 'SAFECOOKIE' in t.auth:
                cf = ' COOKIEFILE="%s"' % t.cookie_path
            f = t.fault('protocolinfo')
            if f:
                k = f['kind']
                if k == 'error':
                    return self.out('551 simulated internal error')
                if k == 'silent':
                    return
                if k == 'close':
                    return self.bye()
                if k == 'garbage':
                    return self.out('\x00\xffhello')
                if k == 'only':
                    # nothing but the end of the answer
                    return self.out('250 OK')
                m = ','.join(f.get('methods', []))
                cf = ''
                if f.get('cookiefile') is not None:
                    cf = ' COOKIEFILE="%s"' % (f['cookiefile'] and os.path.join(t.scratch, str(f['cookiefile'])))
                elif f.get('same'):
                    cf = ' COOKIEFILE="%s"' % t.cookie_path
            self.out('250-PROTOCOLINFO 1')
            self.out('250-AUTH METHODS=%s%s' % (m, cf))
            self.out('250-VERSION Tor="%s"' % t.version)
            return self.out('250 OK')
        if cmd == 'AUTHCHALLENGE':
            if 'SAFECOOKIE' not in t.auth or len(parts) != 3 or parts[1] != 'SAFECOOKIE':
                return self.bye('513 AUTHCHALLENGE only supports SAFECOOKIE authentication')
            try:
                cn = unq(parts[2])
                if cn is None:
                    cn = parts[2].decode('hex')
            except TypeError:
                return self.bye('513 Invalid base16 client nonce')
            f = t.fault('authchallenge')
            sn = os.urandom(32)
            cookie = t.cookie
            k = f['kind'] if f else None
            if k == 'error':
                return self.out('513 not today')
            if k == 'close':
                return self.bye()
            if k == 'silent':
                return
            if k == 'zero':
                cookie = ''
            elif k == 'guess':
                cookie = '\0' * 32
            elif k == 'filehash':
                with open(t.cookie_path) as fin:
                    cookie = fin.read()
            elif k in ('shortnonce', 'longnonce'):
                sn = sn[:int(f.get('n', 8))] if k == 'shortnonce' else sn * 3
            elif k == 'reflect':
                # its own nonce and whatever the client said
                return self.out('250 AUTHCHALLENGE SERVERHASH=%s SERVERNONCE=%s' % (parts[2], parts[2]))
            msg = cookie + cn + sn
            sh = hmac.new(SERVER_KEY, msg, hashlib.sha256).digest()
            if k == 'badhash':
                i = int(f.get('byte', 0)) % 32
                sh = sh[:i] + chr(ord(sh[i]) ^ 1) + sh[i + 1:]
            if k == 'shorthash':
                sh = sh[:int(f.get('n', 16))]
            if k == 'clienthash':
                sh = hmac.new(CLIENT_KEY, msg, hashlib.sha256).digest()
            if k == 'othernonce':
                sh = hmac.new(SERVER_KEY, cookie + sn + cn, hashlib.sha256).digest()
            if k == 'garbage':
                return self.out('250 AUTHCHALLENGE SERVERHASH=zz SERVERNONCE=')
            if k == 'skip':
                # an impostor that does not know the cookie answers as if authentication were done
                return self.out('250 OK')
            self.want = hmac.new(CLIENT_KEY, msg, hashlib.sha256).digest()
            return self.out('250 AUTHCHALLENGE SERVERHASH=%s SERVERNONCE=%s'
                            % (sh.encode('hex').upper(), sn.encode('hex').upper()))
        if cmd == 'AUTHENTICATE':
            arg = line[len('AUTHENTICATE'):].strip()
            ok = False
            if not arg:
                ok = 'NULL' in t.auth
            else:
                raw = unq(arg)
                if raw is None:
                    try:
                        raw = arg.decode('hex')
                    except TypeError:
                        raw = arg
                if 'SAFECOOKIE' in t.auth and getattr(self, 'want', None) is not None and raw == self.want:
                    ok = True
                if 'HASHEDPASSWORD' in t.auth and raw == t.password:
                    ok = True
            f = t.fault('authenticate')
            if f:
                ok = False
                if f.get('kind') == 'silent':
                    return
                if f.get('kind') == 'close':
                    return self.bye()
                if f.get('kind') == 'stay':
                    # refused, and the connection stays open
                    return self.out('515 Authentication failed')
            if not ok:
                return self.bye('515 Authentication failed')
            self.authed = True
            t.note('tor_auth', self, 'NULL' if not arg else ('COOKIE' if raw != t.password else 'PASSWORD'))
            return self.out('250 OK')
        self.bye('514 Authentication required.')

    def setconf(self, kvs):
        t = self.tor
        for kv in kvs:
            k, _, v = kv.partition('=')
            if k == 'EnablePrivCount':
                if not t.patched:
                    return self.out('552 Unrecognized option: Unknown option "EnablePrivCount".  Failing.')
                t.conf[k] = v
            elif k in ('PrivCountCircuitSampleRate', 'PrivCountMaxCellEventsPerCircuit',
                       '__ReloadTorrcOnSIGHUP'):
                t.conf[k] = v
            else:
                return self.out('552 Unrecognized option: Unknown option "%s".  Failing.' % k)
        self.out('250 OK')

    def getconf(self, k):
        t = self.tor
        if k == 'EnablePrivCount' and not t.patched:
            return self.out('552 Unrecognized configuration key "EnablePrivCount"')
        v = t.conf.get(k)
        if isinstance(v, list):
            for i in range(len(v)):
                self.out('250%s%s=%s' % ('-' if i + 1 < len(v) else ' ', k, v[i]))
            if not v:
                self.out('250 %s' % k)
            return
        self.out('250 %s=%s' % (k, v) if v is not None else '250 %s' % k)

    def getinfo(self, k):
        t = self.tor
        if k.startswith('ns/id/'):
            fp = k[6:]
            if fp != t.fingerprint or not t.in_consensus:
                self.out('552 Unrecognized key "%s"' % k)
                return
            self.out('250+%s=' % k)
            self.out('r %s YWJj ZGVm 2020-09-13 12:26:40 10.0.0.1 9001 0' % t.nickname)
            self.out('s %s' % ' '.join(t.flags))
            self.out('w Bandwidth=1000')
            self.out('.')
            return self.out('250 OK')
        if k == 'fingerprint':
            if t.fingerprint is None:
                return self.out('551 Not running in server mode')
            self.out('250-fingerprint=%s' % t.fingerprint)
        elif k == 'version':
            self.out('250-version=%s (git-abcdef)' % t.version)
        elif k == 'address':
            if t.address is None:
                return self.out('551 Address unknown')
            self.out('250-address=%s' % t.address)
        elif k == 'privcount-version':
            if not t.patched:
                return self.out('552 Unrecognized key "privcount-version"')
            self.out('250-privcount-version=1.1.0')
        else:
            return self.out('552 Unrecognized key "%s"' % k)
        self.out('250 OK')


class Tor(protocol.ServerFactory):
    'one relay: configuration plus the process state that does not survive a restart'

    def __init__(self, world, node, spec, listen, scratch):
        self.world, self.node, self.spec, self.listen = world, node, spec, listen
        self.scratch = scratch
        self.name = node.name
        self.restarts = 0

    def boot(self):
        'a fresh Tor process'
        s = self.spec
        self.conns = []
        self.auth = list(s.get('auth', ['SAFECOOKIE']))
        self.password = s.get('password', 'correct horse battery')
        self.cookie_path = os.path.join(self.scratch, self.name + '.cookie')
        self.cookie = os.urandom(32)
        self.version = s.get('version', '0.3.0.10')
        self.fingerprint = s.get('fingerprint')
        self.nickname = s.get('nickname', 'relay')
        self.flags = s.get('flags', ['Exit', 'Fast', 'Guard', 'Running', 'Valid'])
        self.address = s.get('address', '10.1.2.3')
        self.in_consensus = s.get('in_consensus', True)
        self.patched = s.get('patched', True)
        self.tmodel = None
        self.conf = {'EnablePrivCount': '0', '__ReloadTorrcOnSIGHUP': '1', 'Nickname': self.nickname,
                     'ORPort': s.get('orports', ['9001']), 'DirPort': s.get('dirports', []),
                     'PrivCountCircuitSampleRate': '1.0', 'PrivCountMaxCellEventsPerCircuit': '-1'}
        if s.get('torrc_enable'):
            self.conf['EnablePrivCount'] = '1'
        cl = s.get('cookie_len', 32)
        with open(self.cookie_path, 'w') as f:
            f.write(self.cookie[:cl])
        kind, where = self.listen
        if kind == 'unix':
            reactor.listenUNIX(where, self)
        else:
            reactor.listenTCP(where, self)
        self.restarts += 1
        self.schedule()

    def buildProtocol(self, addr):
        return TorConn(self)

    def note(self, what, conn, *a):
        self.world.emit('on_tor', self, what, conn, *a)

    def fault(self, where, cmd=None):
        for f in self.spec.get('faults', []):
            if f['at'] == where and f.get('cmd') in (None, cmd) and f.get('left', 1) > 0:
                if f.get('skip', 0) > 0:
                    f['skip'] -= 1
                    continue
                f['left'] = f.get('left', 1) - 1
                self.world.count('tor.%s.%s' % (where, f.get('kind', '')))
                self.world.emit('on_tor_fault', self, where)
                return f
        return None

    # -- events ------------------------------------------------------------------------
    def schedule(self):
        rate = self.spec.get('rate', 0.0)
        if rate <= 0:
            return
        self.erng = Rng(subseed(self.world.seed, 'events', self.name, self.restarts))
        self.next_event()

    def next_event(self):
        rate = self.spec['rate']
        burst = 1 if self.erng.random() < 0.9 else 1 + int(self.erng.random() * 6)
        self.world.after(self.erng.expovariate(rate), lambda: self.fire(burst), self.node)

    def fire(self, burst):
        for _ in range(burst):
            self.emit_event()
        self.next_event()

    def emit_event(self, line=None):
        if line is None:
            if 'events' in self.spec:
                line = events.make(self.erng, self.world.now, self.spec)
            else:
                line = make_event(self.erng, EPOCH + self.world.now, self.spec)
        kind = line.split(' ')[0]
        sent = 0
        if self.conf['EnablePrivCount'] == '1' or self.spec.get('rude'):
            for c in list(self.conns):
                if c.authed and not c.closed and (kind in c.events or self.spec.get('rude')):
                    c.out('650 ' + line)
                    sent += 1
        self.world.count('tor.events_sent', sent)
        return sent


COUNTRIES = ['us', 'de', 'fr', 'zz', '!!', 'ad']


def make_event(rng, now, spec):
    mix = spec.get('mix', ['stream', 'conn', 'circ'])
    kind = mix[int(rng.random() * len(mix))]
    now = now + spec.get('clock', 0.0)
    if kind == 'stream':
        rd = int(rng.random() ** 4 * 200000)
        wr = int(rng.random() ** 4 * 200000)
        port = rng.choice([80, 443, 22, 6699, 7000])
        return ('PRIVCOUNT_STREAM_ENDED %d %d %d %d %d %d %.6f %.6f %s %s %d'
                % (rng.randrange(1, 50), rng.randrange(1, 1 << 31), rng.randrange(1, 60000), port, rd, wr,
                   now - rng.random() * 100, now, 'h%08x.leak.example' % rng.getrandbits(32) if spec.get('marked') else
                   rng.choice(['example.com', '1.2.3.4', '::1']),
                   rng.choice(['1.2.3.4', '2001:db8::1']), rng.randrange(1, 4)))
    if kind == 'conn':
        return ('PRIVCOUNT_CONNECTION_CLOSE EventTimestamp=%.6f CreatedTimestamp=%.6f ChannelId=%d '
                'RemoteIsClientFlag=%d RemoteIPAddress=%s RemoteIPAddressConnectionCount=%d '
                'PeerIPAddressConsensusRelayCount=%d InboundByteCount=%d OutboundByteCount=%d '
                'InboundCircuitCount=%d OutboundCircuitCount=%d RemoteCountryCode=%s'
                % (now, now - rng.random() * 500, rng.randrange(1, 1000), int(rng.random() < 0.7),
                   '10.%d.%d.%d' % (rng.randrange(256), rng.randrange(256), rng.randrange(256)),
                   rng.randrange(1, 9), rng.randrange(0, 3), int(rng.random() ** 4 * 1e6),
                   int(rng.random() ** 4 * 1e6), rng.randrange(0, 60), rng.randrange(0, 60),
                   rng.choice(COUNTRIES)))
    if kind == 'circ':
        age = rng.random() ** 2 * spec.get('circ_age', 60.0)
        c = [rng.randrange(0, 7) for _ in range(4)]
        return ('PRIVCOUNT_CIRCUIT_CLOSE EventTimestamp=%.6f CreatedTimestamp=%.6f IsLegacyCircuitEndEventFlag=1 '
                'IsEntryFlag=1 PreviousChannelId=%d PreviousCircuitId=%d NextChannelId=5 NextCircuitId=%d '
                'StateString=open PurposeCode=1 PurposeString=SERVER PreviousNodeIPAddress=%s '
                'NextNodeIPAddress=10.9.9.9 NextNodeFingerprint=0C2BF06DD0373F1FA3524A608CDD3575DCAE8478 '
                'NextNodeRelayFlagList=Fast,Running,Valid InboundSentCellCount=%d InboundReceivedCellCount=%d '
                'OutboundSentCellCount=%d OutboundReceivedCellCount=%d InboundExitCellCount=0 '
                'OutboundExitCellCount=0 InboundExitByteCount=0 OutboundExitByteCount=0 InboundDirByteCount=0 '
                'OutboundDirByteCount=0'
                % (now, now - age, rng.randrange(1, 1000), rng.randrange(1, 1 << 31), rng.randrange(1, 1 << 31),
                   '10.7.0.%d' % rng.randrange(1, spec.get('clients', 12)), c[0], c[1], c[2], c[3]))
    if kind == 'legacy':
        return 'PRIVCOUNT_CIRCUIT_ENDED 1 2 3 4 5 6 7 8 9 10 11 12'
    if kind == 'badconn':
        return 'PRIVCOUNT_CONNECTION_CLOSE EventTimestamp=x'
    if kind == 'badcirc':
        return 'PRIVCOUNT_CIRCUIT_CLOSE CreatedTimestamp=zz IsEntryFlag'
    if kind == 'empty':
        return rng.choice(['PRIVCOUNT_STREAM_ENDED', 'PRIVCOUNT_CONNECTION_CLOSE', 'PRIVCOUNT_CIRCUIT_CLOSE'])
    if kind == 'unknown':
        return 'PRIVCOUNT_SOMETHING_NEW a b c'
    if kind == 'badstream':
        return 'PRIVCOUNT_STREAM_ENDED 1 2 3'
    raise ValueError(kind)
