'''
The reference meaning of Tor's PrivCount events, written from doc/TorEvents.markdown, doc/CounterDefinitions.markdown
and doc/CounterTests.markdown, independent of the repository's event handlers.
'''

STREAM = 'PRIVCOUNT_STREAM_ENDED'
CIRCUIT = 'PRIVCOUNT_CIRCUIT_CLOSE'
CONNECTION = 'PRIVCOUNT_CONNECTION_CLOSE'
STORE = 'PRIVCOUNT_HSDIR_CACHE_STORE'
FETCH = 'PRIVCOUNT_HSDIR_CACHE_FETCH'
PACKETS = 'PRIVCOUNT_VITERBI_PACKETS'
STREAMS = 'PRIVCOUNT_VITERBI_STREAMS'

# circuits by what their streams were: counted when the circuit ends, from what its streams reported
BOTH = set(['ExitCircuitStreamHistogram', 'ExitCircuitInterStreamCreationTime'] +
           [x for k in ('Web', 'Interactive', 'P2P', 'OtherPort')
            for x in ('Exit%sCircuitCount' % k, 'ExitCircuit%sStreamHistogram' % k,
                      'ExitCircuit%sInterStreamCreationTime' % k)])


def events_of(name):
    'the events a collector needs for a counter'
    if name == 'ZeroCount':
        return set()
    if name.startswith('ExitStreamTrafficModel'):
        return set([PACKETS])
    if name.startswith('ExitCircuitTrafficModel'):
        return set([STREAMS])
    if name in BOTH:
        return set([STREAM, CIRCUIT])
    if name.startswith('HSDir') and 'Circuit' not in name:
        return set([STORE if 'Store' in name else FETCH])
    if 'Connection' in name:
        return set([CONNECTION])
    if 'Circuit' in name or 'ClientIP' in name:
        return set([CIRCUIT])
    if 'Stream' in name:
        return set([STREAM])
    raise ValueError(name)


def events(names):
    out = set()
    for n in names:
        out |= events_of(n)
    return out


# ---------------------------------------------------------------------------------------------------------
# What an event counts: (counter, value to find its bin by or None for a counter with a single bin, increment)

import hashlib
import math

import ipaddress

INF = float('inf')
WEB = set([80, 443])
CHAT = set([22, 194, 994, 6679, 6697, 7000]) | set(range(6660, 6671))
SHARING = set([1214, 6699, 45682, 51413]) | set(range(4661, 4667)) | set(range(6346, 6430)) | set(range(6881, 7000))


class Reject(Exception):
    'the event is malformed: it counts nothing'


def address(text):
    try:
        return ipaddress.ip_address(text if isinstance(text, unicode) else text.decode('ascii'))
    except ValueError:
        return None


def ratio(inbound, outbound):
    if not inbound and not outbound:
        return 0.0
    if not inbound:
        return 1000.0
    if not outbound:
        return -1000.0
    return math.log(float(outbound) / inbound, 2)


def port_class(port):
    if port in WEB:
        return 'Web'
    if port in CHAT:
        return 'Interactive'
    if port in SHARING:
        return 'P2P'
    return 'OtherPort'


def tagged(items):
    'the fields of a tagged event, or None if it is malformed'
    out = {}
    for i in items:
        if not i:
            continue
        k, eq, val = i.partition('=')
        if not eq or not k or '=' in val or k in out or '\0' in i or '\r' in i or '\n' in i:
            return None
        out[k] = val
    return out


class F(object):
    'reads fields, rejecting the event when one is missing or invalid'
    def __init__(self, fields):
        self.f = fields

    def raw(self, name, need):
        if name not in self.f:
            if need:
                raise Reject(name)
            return None
        return self.f[name]

    def num(self, name, need=False, lo=0, hi=None, kind=int):
        x = self.raw(name, need)
        if x is None:
            return None
        try:
            x = kind(x)
        except ValueError:
            raise Reject(name)
        if (lo is not None and x < lo) or (hi is not None and x > hi):
            raise Reject(name)
        return x

    def flag(self, name, need=False):
        x = self.num(name, need, 0, 1)
        return None if x is None else bool(x)

    def time(self, name, need=False):
        return self.num(name, need, 0.0, None, float)

    def text(self, name, need=False, lo=0, hi=None):
        x = self.raw(name, need)
        if x is not None and (len(x) < lo or (hi is not None and len(x) > hi)):
            raise Reject(name)
        return x

    def ip(self, name, need=False):
        x = self.raw(name, need)
        if x is None:
            return None
        x = address(x)
        if x is None:
            raise Reject(name)
        return x

    def only(self, names, ok):
        for n in names:
            if n in self.f and not ok:
                raise Reject(n)


class Lists(object):
    'the match lists of the operator, in order: every one is a list of items in lower case'
    def __init__(self, domain=(), country=(), asn=(), prefixes=(), store=(), fetch=(), failure=(), onion=()):
        self.domain, self.country, self.asn = domain, country, asn
        self.store, self.fetch, self.failure, self.onion = store, fetch, failure, onion
        # (network, AS number)
        self.prefixes = prefixes

    @staticmethod
    def first(lists, item):
        for i, l in enumerate(lists):
            if item in l:
                return float(i)
        return INF

    def suffix(self, host):
        'the list with the shortest suffix of the host, the first of those'
        host = host.strip('.')
        best = (0, INF)
        for i, l in enumerate(self.domain):
            for d in l:
                if (host == d or host.endswith('.' + d)) and (not best[0] or len(d) < best[0]):
                    best = (len(d), float(i))
        return best[1]

    def as_number(self, ip):
        best = None
        for net, asn in self.prefixes:
            if net.version == ip.version and ip in net:
                if best is None or net.prefixlen > best[0]:
                    best = (net.prefixlen, asn)
        return best and best[1]


class Model(object):
    'what one collection of one data collector counts'
    def __init__(self, names, lists, period):
        self.names = set(names)
        self.lists = lists
        self.period = period
        self.exact = [n for n in names if 'DomainExactMatch' in n or 'DomainNoExactMatch' in n]
        self.suffix = [n for n in names if 'DomainSuffixMatch' in n or 'DomainNoSuffixMatch' in n]
        self.circuits = {}              # (channel, circuit) -> [(class, start time)]
        self.now, self.before = {}, {}  # clients seen in this and in the last window: ip -> [active, done, idle]
        self.rotated = None             # node clock at the last rotation (or when the collection was prepared)
        self.out = []
        self.kinds = {}                 # what was exercised

    def add(self, name, val, inc=1):
        if name in self.names:
            self.out.append((name, val, inc))

    def note(self, what):
        self.kinds[what] = self.kinds.get(what, 0) + 1

    def event(self, line):
        'the increments of one event'
        p = line.split(' ')
        kind, it = p[0], p[1:]
        self.out = []
        try:
            if kind == STREAM:
                if len(it) != 11:
                    raise Reject('items')
                self.stream(it)
            elif kind in HANDLERS:
                f = tagged(it)
                if f is None:
                    raise Reject('tags')
                HANDLERS[kind](self, F(f))
            else:
                return []
        except Reject as e:
            self.note('rejected ' + kind)
            self.out = []
        return self.out

    # -- streams --
    def stream(self, it):
        try:
            chan, circ, _, port, rd, wr = [int(x) for x in it[:6]]
            start, end = float(it[6]), float(it[7])
            nth = int(it[10])
        except ValueError:
            raise Reject('number')
        if rd < 0 or wr < 0 or not rd + wr:
            return
        cls = port_class(port)
        self.circuits.setdefault((chan, circ), []).append((cls, start))
        host = it[8].lower()
        lit, ip = address(host), address(it[9])
        where = 'IPv%dLiteral' % lit.version if lit else 'Hostname'
        pos = 'Initial' if nth == 1 else 'Subsequent'
        web = 'Web' if cls == 'Web' else 'NonWeb'
        subs = ['', cls, where, pos, where + pos]
        if ip:
            subs += ['IPv%d' % ip.version, 'IPv%d%s' % (ip.version, pos)]
        if web == 'NonWeb':
            subs.append(web)
        if not lit:
            subs += [where + web, where + web + pos]
        tot, rat, life = rd + wr, ratio(rd, wr), end - start
        for s in subs:
            s = 'Exit%sStream' % s
            self.add(s + 'Count', None)
            self.add(s + 'ByteCount', None, tot)
            self.add(s + 'OutboundByteCount', None, wr)
            self.add(s + 'InboundByteCount', None, rd)
            self.stream_histograms(s, rd, wr, rat, life)
        if not lit and web == 'Web' and pos == 'Initial':
            for kind, on, b in (('Exact', self.exact, Lists.first(self.lists.domain, host)),
                                ('Suffix', self.suffix, self.lists.suffix(host))):
                if not on:
                    continue
                self.note('domain %s %s' % (kind, b))
                self.stream_histograms('ExitDomain%s%sMatchWebInitialStream' % ('' if b == 0 else 'No', kind),
                                       rd, wr, rat, life)
                s = 'ExitDomain%sMatchWebInitialStream' % kind
                self.add(s + 'CountList', b)
                self.add(s + 'ByteCountList', b, tot)
                self.add(s + 'OutboundByteCountList', b, wr)
                self.add(s + 'InboundByteCountList', b, rd)

    def stream_histograms(self, s, rd, wr, rat, life):
        self.add(s + 'ByteHistogram', rd + wr)
        self.add(s + 'OutboundByteHistogram', wr)
        self.add(s + 'InboundByteHistogram', rd)
        self.add(s + 'ByteRatio', rat)
        self.add(s + 'LifeTime', life)

    # -- circuits --
    def circuit_common(self, f, prefix=''):
        for a in ('Next', 'Previous'):
            f.num(prefix + a + 'ChannelId')
            f.num(prefix + a + 'CircuitId')
        for a in ('Origin', 'Entry', 'Mid', 'End', 'Exit', 'Dir', 'HSDir', 'Intro', 'ClientIntroLegacy', 'Rend',
                  'HSClientSide', 'MarkedForClose'):
            f.flag('%sIs%sFlag' % (prefix, a))
        f.num(prefix + 'HiddenServiceVersionNumber', False, 2, 3)
        f.flag(prefix + 'HasReceivedCreateCellFlag')
        f.num(prefix + 'OnionHandshakeType', False, 0, 2)
        f.text(prefix + 'FailureReasonString', False, 1, 50)
        f.num(prefix + 'ExitStreamCount', False, 1)

    def circuit(self, f):
        end = f.time('EventTimestamp', True)
        self.circuit_common(f)
        start = f.time('CreatedTimestamp', True)
        legacy = f.flag('IsLegacyCircuitEndEventFlag', True)
        f.text('StateString', True, 1, 50)
        f.num('PurposeCode', True, 1, 20)
        f.text('PurposeString', False, 1, 50)
        f.text('HSStateString', False, 1, 50)
        for a in ('Previous', 'Next'):
            f.ip(a + 'NodeIPAddress')
            f.text(a + 'NodeFingerprint', False, 40, 40)
            fl = f.raw(a + 'NodeRelayFlagList', False)
            if fl is not None and not 1 <= (fl.count(',') + 1 if fl else 0) <= 20:
                raise Reject('flags')
        self.circuit_common(f, 'IntroClientSink')
        self.circuit_common(f, 'RendSplice')
        cells, exit_bytes = {}, {}
        for d in ('Inbound', 'Outbound'):
            cells[d] = max(f.num('%s%sCellCount' % (d, k)) or 0 for k in ('Sent', 'Received', 'Exit'))
            exit_bytes[d] = f.num(d + 'ExitByteCount')
            f.num(d + 'DirByteCount')
        inb, outb = cells['Inbound'], cells['Outbound']
        origin, entry, mid, last = [f.flag('Is%sFlag' % a) for a in ('Origin', 'Entry', 'Mid', 'End')]
        exit, dire, hsdir, intro, rend = [f.flag('Is%sFlag' % a) for a in ('Exit', 'Dir', 'HSDir', 'Intro', 'Rend')]
        if dire or hsdir or intro or rend:
            # Tor reports the exit flag on circuits that are something else
            exit = False
        busy = inb + outb >= 8
        if legacy:
            chan, circ = f.num('PreviousChannelId'), f.num('PreviousCircuitId')
            if chan is not None and circ is not None and None not in exit_bytes.values():
                if entry:
                    self.client(str(f.ip('PreviousNodeIPAddress') or '0.0.0.0'), busy, start)
                elif exit:
                    self.exit_streams(self.circuits.pop((chan, circ), []))
        fail = f.raw('FailureReasonString', False)
        ver = f.num('HiddenServiceVersionNumber')
        role = f.flag('IsHSClientSideFlag')
        role = None if role is None else 'Client' if role else 'Service'
        if exit or dire or hsdir:
            busy = True
        if (intro or rend) and ver is None:
            busy = False
        single = entry and last
        pre = [(n, '') for n, on in (('Origin', origin), ('Entry', entry), ('Mid', mid), ('End', last),
                                     ('SingleHop', single)) if on]
        pre += [(n, 'always') for n, on in (('Exit', exit), ('Dir', dire)) if on]
        hs = 'HSDir' if hsdir else 'Intro' if intro else 'Rend' if rend else None
        if hs:
            who = ['']
            if role:
                hop = 'MultiHop' if not single else 'Tor2Web' if role == 'Client' else 'SingleOnion'
                who += [role, hop + role]
            for w in who:
                for x in ('', str(ver) if ver else 'U'):
                    pre.append((hs + x + w, 'always' if hs == 'HSDir' else ''))
        for n, always in pre:
            for a in [''] if always else ['', 'Active' if busy else 'Inactive']:
                for s in ('', 'Success' if fail is None else 'Failure'):
                    c = n + a + s + 'Circuit'
                    self.add(c + 'Count', None)
                    self.add(c + 'InboundCellCount', None, inb)
                    self.add(c + 'OutboundCellCount', None, outb)
                    self.add(c + 'InboundCellHistogram', inb)
                    self.add(c + 'OutboundCellHistogram', outb)
                    if busy:
                        self.add(c + 'CellRatio', ratio(inb, outb))
                    self.add(c + 'LifeTime', end - start)
                    if fail is not None:
                        self.add(c + 'ReasonCountList', Lists.first(self.lists.failure, fail.lower()))
        if exit:
            self.add('ExitAndRend2ClientCircuitCount', None)
            self.add('ExitAndRend2ServiceCircuitCount', None)
        if rend and ver == 2 and role:
            self.add('ExitAndRend2%sCircuitCount' % role, None)

    def exit_streams(self, streams):
        if not streams:
            return
        self.note('exit circuit with streams')
        self.add('ExitCircuitStreamHistogram', len(streams))
        for k in ('', 'Web', 'Interactive', 'P2P', 'OtherPort'):
            times = sorted(t for c, t in streams if not k or c == k)
            if not times:
                continue
            if k:
                self.add('Exit%sCircuitCount' % k, None)
                self.add('ExitCircuit%sStreamHistogram' % k, len(times))
            for a, b in zip(times, times[1:]):
                self.add('ExitCircuit%sInterStreamCreationTime' % k, b - a)

    def client(self, ip, busy, start):
        self.note('client')
        c = self.now.setdefault(ip, [False, 0, 0])
        c[1 if busy else 2] += 1
        c[0] = c[0] or busy
        if start < self.rotated:
            # it was connected in the last window too
            self.note('client of two windows')
            b = self.before.setdefault(ip, [False, 0, 0])
            b[0] = b[0] or busy

    def rotate(self, clock):
        'the end of a window: reports the one before it'
        self.out = []
        self.note('rotation')
        act = len([1 for c in self.before.values() if c[0]])
        self.add('EntryClientIPCount', None, len(self.before))
        self.add('EntryActiveClientIPCount', None, act)
        self.add('EntryInactiveClientIPCount', None, len(self.before) - act)
        for c in self.before.values():
            self.add('EntryClientIPActiveCircuitHistogram', c[1])
            self.add('EntryClientIPInactiveCircuitHistogram', c[2])
        self.now, self.before = {}, self.now
        self.rotated = clock
        return self.out

    # -- connections --
    def connection(self, f):
        end, start = f.time('EventTimestamp', True), f.time('CreatedTimestamp', True)
        f.num('ChannelId', True)
        client = f.flag('RemoteIsClientFlag', True)
        ip = f.ip('RemoteIPAddress', True)
        same = f.num('RemoteIPAddressConnectionCount', True, 0, 2 ** 17)
        relays = f.num('PeerIPAddressConsensusRelayCount', True, 0, 100)
        f.ip('PeerIPAddress')
        b = [f.num(d + 'ByteCount') or 0 for d in ('Inbound', 'Outbound')]
        c = [f.num(d + 'CircuitCount') or 0 for d in ('Inbound', 'Outbound')]
        cc = f.text('RemoteCountryCode', False, 2, 2)
        sizes = [('Byte', sum(b)), ('InboundByte', b[0]), ('OutboundByte', b[1]), ('Circuit', sum(c)),
                 ('InboundCircuit', c[0]), ('OutboundCircuit', c[1])]
        country = Lists.first(self.lists.country, (cc or '!!').lower())
        asn = Lists.first(self.lists.asn, self.lists.as_number(ip))
        for pos in ('', 'RelayOnAddress' if relays else 'NoRelayOnAddress'):
            n = '%s%sConnection' % ('Entry' if client else 'NonEntry', pos)
            self.add(n + 'Count', None)
            for k, x in sizes:
                self.add(n + k + 'Count', None, x)
            for m in ('', 'CountryMatch' if country == 0 else 'CountryNoMatch', 'ASMatch' if asn == 0 else 'ASNoMatch'):
                for k, x in sizes:
                    self.add('%s%s%sHistogram' % (n, m, k), x)
                self.add(n + m + 'LifeTime', end - start)
                self.add(n + m + 'OverlapHistogram', same)
            for m, i in (('CountryMatch', country), ('ASMatch', asn)):
                self.add(n + m + 'CountList', i)
                for k, x in sizes:
                    self.add('%s%s%sCountList' % (n, m, k), i, x)
        self.note('country %s' % country)
        self.note('as %s' % asn)

    # -- onion service descriptors --
    def hsdir_common(self, f):
        ver = f.num('HiddenServiceVersionNumber', True, 2, 3)
        f.time('EventTimestamp', True)
        f.text('CacheReasonString', True, 1, 50)
        f.flag('HasExistingCacheEntryFlag')
        top = 40960 if ver == 2 else 1 << 20
        intro = f.num('EncodedIntroPointByteCount', False, 0, top)
        desc = f.num('EncodedDescriptorByteCount', False, 0, top)
        if None not in (intro, desc) and intro > desc:
            raise Reject('sizes')
        points = f.num('IntroPointCount', False, 0, 10)
        auth = f.flag('RequiresClientAuthFlag')
        f.time('DescriptorCreationTime')
        f.text('DescriptorIdBase32String', False, 32)
        onion = f.text('OnionAddress', False, 16, 16)
        rev = f.num('RevisionNumber')
        f.text('BlindedEd25519PublicKeyBase64String', False, 43, 43)
        f.only(['IntroPointCount', 'RequiresClientAuthFlag', 'DescriptorCreationTime', 'OnionAddress',
                'SupportedProtocolBitfield', 'IntroPointFingerprintList'], ver == 2)
        f.only(['RevisionNumber', 'DescriptorLifetime', 'BlindedEd25519PublicKeyBase64String'], ver == 3)
        return ver, auth, [('Intro', intro), ('Descriptor', desc)], points, onion, rev

    def hsdir(self, f, kind, mid, lists, more):
        ver, auth, sizes, points, onion, rev = self.hsdir_common(f)
        more, mid = more(f, ver), mid(f)
        who = ['']
        if auth is not None:
            who.append('ClientAuth' if auth else 'NoClientAuth')
        reason = Lists.first(lists, f.raw('CacheReasonString', True).lower())
        out = [('Count', None, 1)]
        for k, x in sizes:
            if x is not None:
                out += [(k + 'ByteCount', None, x), (k + 'ByteHistogram', x, 1)]
        out.append(('ReasonCountList', reason, 1))
        both = list(out)
        if onion is not None:
            a = onion.lower()
            i = min(Lists.first(self.lists.onion, a),
                    Lists.first(self.lists.onion, hashlib.md5((a + '.onion').encode('ascii')).hexdigest()))
            self.note('onion %s' % i)
            out.append(('OnionAddressCountList', i, 1))
        if points is not None:
            out.append(('IntroPointHistogram', points, 1))
        if rev is not None:
            out.append(('RevisionHistogram', rev, 1))
        out += more
        for m in mid:
            for n, val, inc in both:
                self.add('HSDir' + kind + m + n, val, inc)
            for w in who:
                for n, val, inc in out:
                    self.add('HSDir%d%s%s%s%s' % (ver, kind, m, w, n), val, inc)

    def store(self, f):
        def mid(f):
            a = 'Add' if f.flag('WasAddedToCacheFlag', True) else 'Reject'
            c = 'Cached' if f.flag('HasExistingCacheEntryFlag') else 'Uncached'
            return ['', a, c, a + c]

        def more(f, ver):
            t = f.time('DescriptorCreationTime')
            return [] if t is None else [('UploadDelayTime', f.time('EventTimestamp') - t, 1)]
        self.hsdir(f, 'Store', mid, self.lists.store, more)

    def fetch(self, f):
        def mid(f):
            f.num('CacheQueryByteCount', True)
            return ['', 'Cached' if f.flag('HasCacheEntryFlag') else 'Uncached']

        def more(f, ver):
            f.num('CacheLastServedTime')
            f.num('CacheCreatedTime')
            f.only(['CacheLastServedTime'], ver == 2)
            f.only(['CacheCreatedTime'], ver == 3)
            return []
        self.hsdir(f, 'Fetch', mid, self.lists.fetch, more)


HANDLERS = {CIRCUIT: Model.circuit, CONNECTION: Model.connection, STORE: Model.store, FETCH: Model.fetch}
