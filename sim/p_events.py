'''
C16: each event a relay reports adds to exactly the counters and bins that its documentation says.

A reference model of every counter (meaning.py, written from doc/TorEvents.markdown and doc/CounterDefinitions.markdown)
reads the same events as the data collector; the published tallies must agree with it in every bin.
'''
import hashlib
import json
import os

import events
import gen
import meaning
import oracles
from gen import pick, uni
from oracles import v
from p_tor import counts_exact, no_exits
from profile import Profile, round_probes

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, 'counters.txt')) as _f:
    NAMES = [n for n in _f.read().split() if 'TrafficModel' not in n and n != 'ZeroCount']


def family(n):
    ev = meaning.events_of(n)
    if meaning.STORE in ev:
        return 'store'
    if meaning.FETCH in ev:
        return 'fetch'
    if meaning.CONNECTION in ev:
        return 'conn'
    if 'ClientIP' in n:
        return 'client'
    if len(ev) == 2:
        return 'exitcirc'
    if meaning.STREAM in ev:
        return 'domain' if 'Domain' in n else 'stream'
    for p in ('HSDir', 'Intro', 'Rend'):
        if n.startswith(p):
            return p.lower()
    return 'circuit'


FAMILIES = {}
for _n in NAMES:
    FAMILIES.setdefault(family(_n), []).append(_n)
MIX = {'store': {'store': 1}, 'fetch': {'fetch': 1}, 'conn': {'conn': 1}, 'client': {'circ': 1}, 'stream': {'stream': 1},
       'exitcirc': {'stream': 2, 'circ': 1}, 'domain': {'stream': 1}, 'hsdir': {'circ': 1}, 'intro': {'circ': 1},
       'rend': {'circ': 1}, 'circuit': {'circ': 1}, 'zero': {'conn': 1, 'stream': 1}}
INF = float('inf')


def bins(r, name):
    'disjoint ranges of the values a counter takes'
    if name.endswith('CountList'):
        return []
    if name.endswith('Count'):
        return [[0.0, INF]]
    if name.endswith('Ratio'):
        pool = [-INF, -100.0, -10.5, -2.3, -0.7, 0.0, 0.7, 2.3, 10.5, 100.0, INF]
    elif name.endswith('Time'):
        pool = [-600.0, 0.0, 0.125, 0.5, 1.0, 2.0, 8.0, 10.0, 60.0, 600.0, 86400.0, INF]
    elif 'Cell' in name or 'Byte' in name:
        pool = [float(x) for x in events.EDGES] + [INF]
    else:
        pool = [float(x) for x in (0, 1, 2, 3, 4, 5, 8, 9, 12, 20, 100)] + [INF]
    while True:
        keep = sorted(gen.sample(r, pool, 3 + int(r.random() * 5)))
        out = [[a, b] for a, b in zip(keep, keep[1:])]
        if len(out) > 2 and r.random() < 0.2:
            # values in the gap are not counted
            del out[1 + int(r.random() * (len(out) - 2))]
        if r.random() < 0.1:
            out = gen.sample(r, out, len(out))
        if len(out) > 1:
            return out


def item_file(r, items, shout=True):
    'a list file as an operator writes it'
    out = []
    if r.random() < 0.5:
        out.append(pick(r, ['# a list', '// a list', '; a list', '']))
    for i in items:
        if shout and r.random() < 0.3:
            i = i.upper() if r.random() < 0.5 else i.capitalize()
        out.append(pick(r, ['', ' ', '\t']) + i + pick(r, ['', ' ']))
        if r.random() < 0.1:
            out.append(pick(r, ['', '# more']))
    return '\n'.join(out) + pick(r, ['\n', ''])


ONIONS = ['abcdefghij234567', 'aaaaaaaaaaaaaaaa', 'zzzzzzzzzzzzzzz7', 'qrstuvwxyz765432', 'mmmmmmmmmmmmmmm2']


class Lists(object):
    'the lists of a deployment: files, what they mean, and the settings that name them'

    def __init__(self, r, p):
        self.r, self.p = r, p
        p['lists'], p['files'], self.conf = {}, p.get('files', {}), {}
        self.spec = {}
        self.overlap = r.random() < 0.25
        if self.overlap:
            self.conf['reject_overlapping_lists'] = False
        self.make('domain_files', 'domain', self.domains())
        self.make('country_files', 'country', self.split(['us', 'de', 'fr', 'zz', '!!', 'ad', 'gb', '??', 'a1']))
        self.ases()
        self.make('hsdir_store_files', 'store', self.split(['expired', 'future', 'cacheok', 'malformed', 'superseded']))
        self.make('hsdir_fetch_files', 'fetch', self.split(['served', 'notfound', 'found', 'old', 'malformed']))
        self.make('circuit_failure_files', 'failure',
                  self.split(['timeout', 'destroyed', 'channelclosed', 'finished', 'none', 'requested']))
        self.onions()

    def split(self, items, apart=False):
        'one to three lists of some of the items (an item may be in several, if lists may overlap)'
        r = self.r
        items = gen.sample(r, items, 1 + int(r.random() * len(items)))
        k = min(len(items), pick(r, [1, 2, 2, 3]))
        out = [[] for _ in range(k)]
        for i, x in enumerate(items):
            out[i if i < k else int(r.random() * k)].append(x)
            if self.overlap and not apart and r.random() < 0.3:
                j = int(r.random() * k)
                if x not in out[j]:
                    out[j].append(x)
        return out

    def domains(self):
        r = self.r
        # no domain of a list within a domain of another
        groups = [['example.com', 'www.example.com'], ['example.org'], ['example.net'], ['localhost'], ['test'],
                  ['b.example', 'c.b.example'], ['under_score.example'], ['xn--bcher-kva.example', 'a-b.example']]
        if r.random() < 0.2:
            groups = [['example', 'b.example', 'a-b.example'], ['example.com'], ['com.'], ['example.org', 'org']]
            groups = groups[:1] + groups[1:2 + int(r.random())] + groups[3:]
        pick3 = self.split([json.dumps(g) for g in groups], apart=True)
        return [[d for g in l for d in gen.sample(r, json.loads(g), 1 + int(r.random() * 2))] for l in pick3]

    def make(self, key, name, lists, texts=None, means=None):
        r, names = self.r, []
        for i, l in enumerate(lists):
            n = '%s-%d.txt' % (name, i)
            self.p['files'][n] = item_file(r, texts[i] if texts else l, not texts)
            self.p['lists'][n] = [[self.p['files'][n], means[i] if means else l]]
            names.append(n)
        self.conf[key] = names
        self.spec[name] = [x for l in lists for x in l]

    def onions(self):
        r = self.r
        lists = self.split(ONIONS)
        texts, means = [], []
        for l in lists:
            t, m = [], []
            for o in l:
                if r.random() < 0.4:
                    h = hashlib.md5(o + '.onion').hexdigest()
                    t.append(h.upper() if r.random() < 0.3 else h)
                    m.append(h)
                else:
                    t.append(pick(r, ['%s', '%s.onion', 'http://%s.onion/', 'https://www.%s.onion/x/y', '%s.onion']) % o)
                    m.append(o)
            texts.append(t)
            means.append(m)
        self.make('onion_address_files', 'onion', lists, texts, means)

    def ases(self):
        r = self.r
        v4 = [['0.0.0.0/0', 9], ['1.0.0.0/8', 64500], ['1.2.0.0/16', 64501], ['1.2.3.4/32', 64502], ['10.0.0.0/8', 64503],
              ['192.0.2.0/24', 4200000000], ['10.128.0.0/9', 64505]]
        v6 = [['2001:db8::/32', 64500], ['2001:db8:1::/48', 64501], ['2001:db8::1/128', 64510], ['::/0', 9]]
        self.conf['as_prefix_files'] = {}
        for ver, nets in ((4, v4), (6, v6)):
            nets = gen.sample(r, nets, 1 + int(r.random() * len(nets)))
            n = 'prefix%d.txt' % ver
            self.p['files'][n] = '\n'.join(['; prefixes'] + ['%s\t%d' % (a, b) for a, b in nets]) + '\n'
            self.p['lists'][n] = [[self.p['files'][n], nets]]
            self.conf['as_prefix_files'][str(ver)] = n
        lists = self.split(['9', '64500', '64501', '64502', '64503', '4200000000', '64505', '64510', '7'])
        self.make('as_files', 'as', lists, lists, [[int(x) for x in l] for l in lists])
        self.spec['nets'] = ['1.2.3.4', '1.2.3.5', '1.2.9.9', '1.9.9.9', '10.1.1.1', '10.200.1.1', '192.0.2.200',
                             '2001:db8::1', '2001:db8::2', '2001:db8:1::5', '2001:db9::1', '255.1.2.3']


class C16(Profile):
    id = 'C16'

    def gen(self, seed, tier):
        r = self.rng(seed)
        fams = gen.sample(r, sorted(FAMILIES), pick(r, [1, 1, 2, 3]))
        names = set()
        n = pick(r, [60, 120, 200]) // len(fams)
        for f in fams:
            names |= set(gen.sample(r, FAMILIES[f], n))
        p = gen.base(r, seed, sks=1, dcs=pick(r, [1, 1, 2]), rounds=2, sigma='zero', counters=sorted(names))
        p['bins'] = dict((x, bins(r, x)) for x in sorted(names))
        period = pick(r, [30, 45, 60])
        p['ts'] = {'collect_period': period, 'event_period': 10, 'checkin_period': 5}
        p['net'] = {'lat': [0.001, 0.05], 'chunk': pick(r, [0, 0, 64])}
        mix = {}
        for f in fams:
            for k, w in MIX[f].items():
                mix[k] = max(mix.get(k, 0), w)
        if r.random() < 0.2:
            mix = dict((k, 1) for k in events.MAKE)
        lists = Lists(r, p)
        p['ts'].update(lists.conf)
        spec = {'mix': mix, 'bad': pick(r, [0.0, 0.02, 0.1]), 'hosts': sorted(lists.spec['domain']),
                'nets': lists.spec['nets'], 'failure': lists.spec['failure'], 'store': lists.spec['store'],
                'fetch': lists.spec['fetch'], 'onions': ONIONS}
        for i, d in enumerate(p['dcs']):
            d['tor']['events'] = spec
            d['tor']['rate'] = pick(r, [2.0, 4.0, 6.0])
            d['rotate'] = pick(r, [6, 11, 17, 600])
            d['weight'] = 1.0
        p['rounds'] = 2
        p['end'] = 2 * (period + 40) + 30
        # an operator reorders and drops lists between and during rounds
        for _ in range(pick(r, [0, 0, 1, 2, 4])):
            key = pick(r, sorted(k for k in lists.conf if k.endswith('_files') and k != 'as_prefix_files'))
            fs = lists.conf[key]
            p['ops'].append({'op': 'conf', 't': uni(r, 5, p['end'] - 20), 'node': 'ts',
                             'set': {key: gen.sample(r, fs, 1 + int(r.random() * len(fs)))}})
        if r.random() < 0.4:
            # a relay that stops loses what it was about to report, and nothing else
            for _ in range(1 + int(r.random() * 3)):
                f = pick(r, [gen.f_kill_tor, gen.f_reset_tor, gen.f_partition_tor])
                p['ops'] += f(r, p, uni(r, 10, p['end'] - 20))
        p['ops'].sort(key=lambda o: o['t'])
        return p

    def check(self, c):
        out = no_exits(c) + counts_exact(c) + oracles.tally_exact(c) + self.shapes(c)
        if not c.rec.rounds:
            out.append(v('no-round', c.world.now, 'no round started'))
        return out

    @staticmethod
    def list_of(name, lists):
        if 'CircuitReason' in name:
            return lists.failure
        if 'Domain' in name:
            return lists.domain
        if 'Onion' in name:
            return lists.onion
        if name.startswith('HSDir'):
            return lists.store if 'Store' in name else lists.fetch
        return lists.country if 'Country' in name else lists.asn

    def shapes(self, c):
        'every collection counts the configured counters, in the configured bins'
        out = []
        for k in c.rec.collections:
            # a counter that nothing adds to is always there
            got = dict((n, x) for n, x in k.config.get('counters', {}).items() if n != 'ZeroCount')
            if set(got) != set(c.plan['counters']):
                out.append(v('counters-differ', k.t, '%s collects %s, configured %s'
                             % (k.dc, sorted(set(got) - set(c.plan['counters']))[:3],
                                sorted(set(c.plan['counters']) - set(got))[:3])))
                continue
            lists = k.model.lists
            for name in sorted(got):
                want = c.plan['bins'][name]
                if name.endswith('CountList'):
                    n = len(self.list_of(name, lists))
                    want = [[float(i), i + 1.0] for i in range(n)] + [[float(n), INF]]
                have = sorted([float(x) for x in b[:2]] for b in got[name].get('bins', []))
                if have != sorted([float(x) for x in b[:2]] for b in want):
                    out.append(v('bins-differ', k.t, '%s: bins of %s are %s, expected %s' % (k.dc, name, have, want),
                                 counter=name))
        return out

    def probes(self, c):
        out = round_probes(c)
        out['events.counted'] = sum(k.nevents for k in c.rec.collections)
        out['bins.counted'] = sum(len(k.counts) for k in c.rec.collections)
        seen = set()
        for k in c.rec.collections:
            seen |= set(n for n, _ in k.counts)
            for x, n in k.model.kinds.items():
                x = 'model.' + x.split(' ')[0]
                out[x] = out.get(x, 0) + n
        out['counters.counted'] = len(seen)
        return out
