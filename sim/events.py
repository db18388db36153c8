'''
Events a relay might emit, and ones it should not: every field combination that doc/TorEvents.markdown allows, values at
the edges of the bins, repeated identities, and malformed events.  Timestamps are multiples of 1/8 second, so that
differences are exact.
'''
import math

from simcore import EPOCH

SIZES = [0, 1, 2, 3, 4, 7, 8, 9, 16, 100, 511, 512, 513, 1024, 8191, 8192, 65536, 100000, 1000000, 1 << 31, (1 << 40) + 1]
EDGES = [0, 1, 2, 4, 8, 9, 100, 512, 1024, 8192, 65536, 1000000, 1 << 31]
SMALL = [0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 20]
SECONDS = [0, 0.125, 0.5, 1, 2, 8, 10, 60, 600, 86400]
HOSTS = ['Example.COM', 'www.example.com', 'example.org', 'notexample.com', 'a.b.c.example.net', 'example.com.evil.test',
         'com', 'localhost', 'x', '1.2.3.4', '255.255.255.255', '::1', '2001:DB8::1', '2001:db8::7', '1.2.3',
         'xn--bcher-kva.example', 'very-' + 'long-' * 30 + 'name.example']
IPS = ['1.2.3.4', '10.0.0.1', '192.0.2.7', '2001:db8::1', '2001:db8:1::2', '::ffff:1.2.3.4', '0.0.0.0', '255.255.255.255']
PORTS = [80, 443, 22, 194, 994, 6660, 6670, 6671, 6679, 6697, 7000, 7001, 1214, 4661, 4666, 4667, 6346, 6429, 6430, 6699,
         6881, 6999, 45682, 51413, 81, 0, 1, 65535, 8080, 4660, 6659, 6345, 6880]
REASONS = ['TIMEOUT', 'Destroyed', 'none', 'ChannelClosed', 'no_such_reason', 'finished', 'Requested']
WORDS = {'C': REASONS,
         'S': ['expired', 'Future', 'cacheok', 'store_ok', 'Malformed', 'unparseable', 'superseded'],
         'F': ['served', 'not_found', 'Found', 'Malformed', 'old', 'notfound']}
COUNTRIES = ['us', 'US', 'de', 'fr', 'zz', '!!', 'ad', 'Gb', 'au']
FLAGS = ['Entry', 'Mid', 'End', 'Exit', 'Dir', 'HSDir', 'Intro', 'Rend', 'Origin']
FP = '0C2BF06DD0373F1FA3524A608CDD3575DCAE8478'


def pick(r, seq):
    return seq[int(r.random() * len(seq))]


def size(r, spec):
    a = r.random()
    if a < 0.5:
        return pick(r, SIZES)
    if a < 0.8:
        return r.randrange(0, 30)
    return int(math.exp(r.random() * 20))


def eighth(x):
    return math.floor(x * 8) / 8.0


def times(r, now):
    'a start and an end, as text'
    end = eighth(now)
    life = pick(r, SECONDS) if r.random() < 0.5 else eighth(r.random() * 90)
    if r.random() < 0.05:
        life = -life
    return '%.3f' % (end - life), '%.3f' % end


def some(r, p, items, out):
    for k, x in items:
        if r.random() < p:
            out.append('%s=%s' % (k, x))


def stream(r, now, s):
    start, end = times(r, now)
    a, b = size(r, s), size(r, s)
    if r.random() < 0.03:
        a = -a
    host = pick(r, s.get('hosts') or HOSTS) if r.random() < 0.7 else pick(r, HOSTS)
    if r.random() < 0.15:
        host = pick(r, ['www.', 'x', 'a.b.', '-']) + host
    if r.random() < 0.2:
        host = host.upper()
    port = pick(r, [80, 443]) if r.random() < 0.55 else pick(r, PORTS)
    ip = pick(r, IPS) if r.random() < 0.95 else pick(r, ['(null)', '', 'nowhere', '1.2.3.4.5'])
    it = [r.randrange(1, 5), r.randrange(1, 7), r.randrange(1, 99), port, a, b, start, end, host, ip,
          pick(r, [1, 1, 1, 2, 3, 0])]
    # (a malformed stream event makes the collector reconnect: what it misses meanwhile is not decided here)
    return ['PRIVCOUNT_STREAM_ENDED'] + [str(x) for x in it]


def circuit(r, now, s):
    start, end = times(r, now)
    on = set()
    a = r.random()
    if a < 0.30:
        on |= set(pick(r, [['Entry'], ['Entry'], ['Mid'], ['End'], ['Origin'], ['Entry', 'End'], ['Origin', 'Exit']]))
    elif a < 0.5:
        on |= set(['End', 'Exit']) if r.random() < 0.9 else set(['Exit'])
    elif a < 0.85:
        on |= set([pick(r, ['HSDir', 'Intro', 'Rend', 'Intro', 'Rend'])] + pick(r, [['End'], ['Entry', 'End'], []]))
        if r.random() < 0.1:
            on.add('Exit')
    else:
        on |= set(f for f in FLAGS if r.random() < 0.3)
    out = ['EventTimestamp=' + end, 'CreatedTimestamp=' + start,
           'IsLegacyCircuitEndEventFlag=%d' % (r.random() < 0.8), 'StateString=open',
           'PurposeCode=%d' % pick(r, [1, 5, 20])]
    for f in FLAGS:
        if f in on:
            out.append('Is%sFlag=1' % f)
        elif r.random() < 0.3:
            out.append('Is%sFlag=0' % f)
    hs = on & set(['HSDir', 'Intro', 'Rend'])
    if r.random() < (0.8 if hs else 0.1):
        out.append('HiddenServiceVersionNumber=%d' % pick(r, [2, 3]))
    if r.random() < (0.8 if hs else 0.1):
        out.append('IsHSClientSideFlag=%d' % (r.random() < 0.5))
    if r.random() < 0.4:
        out.append('FailureReasonString=%s' % pick(r, (s.get('failure') or REASONS) + REASONS))
    if r.random() < 0.92:
        out += ['PreviousChannelId=%d' % r.randrange(1, 5), 'PreviousCircuitId=%d' % r.randrange(1, 7)]
    some(r, 0.9, [('InboundExitByteCount', size(r, s)), ('OutboundExitByteCount', size(r, s))], out)
    some(r, 0.3, [('InboundDirByteCount', size(r, s)), ('OutboundDirByteCount', size(r, s)), ('NextChannelId', 5),
                  ('NextCircuitId', 6), ('IsMarkedForCloseFlag', 1), ('PurposeString', 'SERVER'),
                  ('HSStateString', 'idle'), ('OnionHandshakeType', 2), ('HasReceivedCreateCellFlag', 1),
                  ('NextNodeIPAddress', pick(r, IPS)), ('NextNodeFingerprint', FP),
                  ('NextNodeRelayFlagList', 'Fast,Running'), ('ExitStreamCount', 3)], out)
    few = r.random() < 0.5
    for d in ('Inbound', 'Outbound'):
        for k in ('Sent', 'Received', 'Exit'):
            if r.random() < 0.6:
                out.append('%s%sCellCount=%d' % (d, k, pick(r, SMALL) if few else size(r, s)))
    some(r, 0.93, [('PreviousNodeIPAddress', '10.7.0.%d' % r.randrange(1, 9) if r.random() < 0.8 else pick(r, IPS))], out)
    if r.random() < 0.05:
        out += [pick(r, ['IntroClientSink', 'RendSplice']) + x for x in
                ('IsEntryFlag=1', 'PreviousChannelId=7', 'HiddenServiceVersionNumber=3')]
    return ['PRIVCOUNT_CIRCUIT_CLOSE'] + out


def connection(r, now, s):
    start, end = times(r, now)
    nets = s.get('nets')
    ip = pick(r, nets) if nets and r.random() < 0.7 else pick(r, IPS)
    out = ['EventTimestamp=' + end, 'CreatedTimestamp=' + start, 'ChannelId=%d' % r.randrange(1, 1000),
           'RemoteIsClientFlag=%d' % (r.random() < 0.6), 'RemoteIPAddress=' + ip,
           'RemoteIPAddressConnectionCount=%d' % pick(r, [0, 1, 2, 3, 9, 100, 131072]),
           'PeerIPAddressConsensusRelayCount=%d' % pick(r, [0, 0, 1, 2, 100])]
    some(r, 0.9, [(d + k + 'Count', size(r, s)) for d in ('Inbound', 'Outbound') for k in ('Byte', 'Circuit')], out)
    some(r, 0.9, [('RemoteCountryCode', pick(r, COUNTRIES))], out)
    some(r, 0.3, [('PeerIPAddress', pick(r, IPS))], out)
    return ['PRIVCOUNT_CONNECTION_CLOSE'] + out


def descriptor(r, now, s, kind):
    end = eighth(now)
    ver = pick(r, [2, 2, 3])
    reason = pick(r, (s.get(kind) or []) + WORDS[kind[0].upper()])
    desc = pick(r, [0, 1, 100, 8192, 40959, 40960]) if r.random() < 0.9 else size(r, s)
    intro = int(desc * r.random()) if r.random() < 0.9 else size(r, s)
    out = ['HiddenServiceVersionNumber=%d' % ver, 'EventTimestamp=%.3f' % end, 'CacheReasonString=' + reason]
    some(r, 0.8, [('EncodedIntroPointByteCount', intro), ('EncodedDescriptorByteCount', desc)], out)
    if ver == 2:
        onion = pick(r, s['onions']) if s.get('onions') and r.random() < 0.7 else 'a' * 15 + pick(r, 'abc')
        some(r, 0.8, [('IntroPointCount', r.randrange(0, 11)), ('RequiresClientAuthFlag', int(r.random() < 0.4)),
                      ('OnionAddress', onion.upper() if r.random() < 0.2 else onion),
                      ('DescriptorCreationTime', '%.3f' % (end - pick(r, SECONDS)))], out)
    else:
        some(r, 0.8, [('RevisionNumber', pick(r, SMALL))], out)
        some(r, 0.3, [('BlindedEd25519PublicKeyBase64String', 'A' * 43)], out)
    if kind == 'store':
        out.append('WasAddedToCacheFlag=%d' % (r.random() < 0.6))
        some(r, 0.8, [('HasExistingCacheEntryFlag', int(r.random() < 0.5))], out)
    else:
        out.append('CacheQueryByteCount=%d' % size(r, s))
        some(r, 0.8, [('HasCacheEntryFlag', int(r.random() < 0.5))], out)
    return ['PRIVCOUNT_HSDIR_CACHE_' + kind.upper()] + out


MAKE = {'stream': stream, 'circ': circuit, 'conn': connection,
        'store': lambda r, now, s: descriptor(r, now, s, 'store'),
        'fetch': lambda r, now, s: descriptor(r, now, s, 'fetch')}
JUNK = ['x', '', '-1', '999999999999999999999', '1e3', '0x10', '1.5', 'true', ' ', '\xc3\xa9']


def spoil(r, p):
    'a tagged event with one thing wrong, or something that only looks wrong'
    p = list(p)
    i = 1 + int(r.random() * (len(p) - 1))
    k = p[i].partition('=')[0]
    how = r.random()
    if how < 0.3:
        del p[i]
    elif how < 0.45:
        p.insert(1 + int(r.random() * len(p)), p[i])
    elif how < 0.75:
        p[i] = k + '=' + pick(r, JUNK + ['2'])
    elif how < 0.8:
        p[i] = k
    elif how < 0.85:
        p[i] = '=' + k
    elif how < 0.9:
        p.insert(i, 'SomeNewField=%d' % r.randrange(0, 9))
    elif how < 0.95:
        p.insert(i, '')
    else:
        p[i] = p[i] + '=1'
    return p


def make(r, world_now, spec):
    s = spec['events']
    kinds = sorted(s['mix'])
    tot = sum(s['mix'][k] for k in kinds)
    x = r.random() * tot
    for k in kinds:
        x -= s['mix'][k]
        if x < 0:
            break
    p = MAKE[k](r, EPOCH + world_now, s)
    if k != 'stream':
        if r.random() < s.get('bad', 0.03):
            p = spoil(r, p)
        if r.random() < 0.3:
            rest = p[1:]
            j = int(r.random() * (len(rest) or 1))
            p = p[:1] + rest[j:] + rest[:j]
    return ' '.join(p)
