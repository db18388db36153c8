'''
Building blocks for plans: deployments, network conditions and fault schedules.  Everything is drawn from the
Rng given; probabilities are themselves drawn per plan (swarm), so that some runs have no fault of a kind and
some have many.
'''
from simcore import Rng, subseed
from cluster import COUNTERS, fingerprint

NAMES = sorted(COUNTERS)
CLIENT = [n for n in NAMES if 'ClientIP' in n]
PLAIN = [n for n in NAMES if 'ClientIP' not in n]
FIXED = [n for n in PLAIN if COUNTERS[n]]        # bins given by the configuration


def pick(rng, seq):
    return seq[int(rng.random() * len(seq))]


def uni(rng, a, b, nd=3):
    return round(a + (b - a) * rng.random(), nd)


def sample(rng, seq, k):
    seq = list(seq)
    out = []
    for _ in range(min(k, len(seq))):
        out.append(seq.pop(int(rng.random() * len(seq))))
    return out


def base(rng, seed, sks=None, dcs=None, rounds=3, sigma='zero', counters=None):
    'a deployment with no faults; p["ready"] is when all of it has been up for a while'
    nsk = sks or pick(rng, [1, 2, 2, 3])
    ndc = dcs or pick(rng, [1, 2, 2, 3])
    ev = pick(rng, [3, 4, 5])
    ck = pick(rng, [2, 3, 4])
    period = pick(rng, [16, 20, 24, 30])
    if counters is None:
        counters = sorted(sample(rng, PLAIN, 2 + int(rng.random() * 5)) +
                          sample(rng, CLIENT, int(rng.random() * 2)))
    p = {'seed': seed, 'counters': counters, 'ops': [], 'boot': {}, 'tags': []}
    p['net'] = {'lat': pick(rng, [[0.001, 0.05], [0.002, 0.3], [0.05, 1.0]]),
                'chunk': pick(rng, [0, 0, 0, 64, 400])}
    keys = sample(rng, range(5), nsk)
    p['sks'] = [{'key': k} for k in keys]
    p['dcs'] = []
    for i in range(ndc):
        tor = {'rate': uni(rng, 0.1, 1.2), 'mix': pick(rng, [['stream', 'conn', 'circ'], ['stream'], ['conn', 'circ'],
                                                              ['conn'], ['stream', 'conn']])}
        d = {'tor': tor, 'weight': pick(rng, [1.0, 0.5, 0.25]), 'use_setconf': True}
        if rng.random() < 0.15:
            d['unix'] = True
        a = rng.random()
        if a < 0.15:
            tor['auth'] = ['NULL']
        elif a < 0.3:
            tor['auth'] = ['HASHEDPASSWORD']
            tor['password'] = 'correct horse battery'
            d['dc_password'] = 'correct horse battery'
        elif a < 0.4:
            tor['auth'] = ['SAFECOOKIE', 'HASHEDPASSWORD']
            tor['password'] = 'correct horse battery'
        if rng.random() < 0.15:
            tor['torrc_enable'] = True
            d['use_setconf'] = False
        tor['flags'] = pick(rng, [['Exit', 'Fast', 'Guard', 'Running', 'Valid'], ['Fast', 'Guard', 'Running', 'Valid'],
                                  ['Exit', 'Running', 'Valid'], ['Running', 'Valid']])
        p['dcs'].append(d)
    p['ts'] = {'collect_period': period, 'event_period': ev, 'checkin_period': ck}
    if sigma == 'mixed':
        p['sigmas'] = dict((c, pick(rng, [0.0, 5.0, 300.0])) for c in counters)
    elif sigma == 'noisy':
        p['sigmas'] = dict((c, pick(rng, [2.0, 50.0, 3000.0])) for c in counters)
    for n in ['ts'] + ['sk%d' % i for i in range(nsk)] + ['dc%d' % i for i in range(ndc)]:
        p['boot'][n] = uni(rng, 0, 6)
    # start-up of clients is sequential per check-in: allow for the reconnection backoff
    p['end'] = int(rounds * (period + 2 * ev + 4 * ck + 12) + 20)
    return p


def names(p, kinds='ts sk dc tor'):
    out = []
    if 'ts' in kinds:
        out.append('ts')
    if 'sk' in kinds:
        out += ['sk%d' % i for i in range(len(p['sks']))]
    if 'dc' in kinds:
        out += ['dc%d' % i for i in range(len(p['dcs']))]
    if 'tor' in kinds:
        out += ['tor%d' % i for i in range(len(p['dcs']))]
    return out


# kind -> weight; every generator returns a list of operations at time t
def f_kill(rng, p, t, kinds='ts sk dc'):
    return [{'op': 'kill', 't': t, 'node': pick(rng, names(p, kinds)), 'down': uni(rng, 0.1, 15),
             'how': pick(rng, ['kill', 'kill', 'power'])}]


def f_kill_dc(rng, p, t):
    return f_kill(rng, p, t, 'dc')


def f_kill_sk(rng, p, t):
    return f_kill(rng, p, t, 'sk')


def f_kill_ts(rng, p, t):
    return f_kill(rng, p, t, 'ts')


def f_kill_tor(rng, p, t):
    return f_kill(rng, p, t, 'tor')


def f_reset(rng, p, t):
    a = pick(rng, names(p, 'sk dc'))
    return [{'op': 'reset', 't': t, 'a': a, 'b': 'ts'}]


def f_reset_burst(rng, p, t):
    a = pick(rng, names(p, 'sk dc'))
    return [{'op': 'reset', 't': round(t + 0.3 * k * rng.random() + 0.2 * k, 3), 'a': a, 'b': 'ts'}
            for k in range(int(4 + rng.random() * 20))]


def f_reset_tor(rng, p, t):
    i = int(rng.random() * len(p['dcs']))
    return [{'op': 'reset', 't': t, 'a': 'tor%d' % i, 'b': 'dc%d' % i}]


def f_partition(rng, p, t):
    a = pick(rng, names(p, 'sk dc'))
    return [{'op': 'partition', 't': t, 'nodes': pick(rng, [[a, 'ts'], [a], ['ts']]), 'd': uni(rng, 0.5, 40)}]


def f_partition_tor(rng, p, t):
    i = int(rng.random() * len(p['dcs']))
    return [{'op': 'partition', 't': t, 'nodes': ['tor%d' % i, 'dc%d' % i], 'd': uni(rng, 0.5, 15)}]


def f_slow(rng, p, t):
    a = pick(rng, names(p, 'sk dc'))
    return [{'op': 'slow', 't': t, 'nodes': [a, 'ts'], 'd': uni(rng, 5, 40), 'lat': uni(rng, 0.5, 12)}]


def f_stall(rng, p, t):
    return [{'op': 'stall', 't': t, 'node': pick(rng, names(p)), 'd': uni(rng, 0.2, 15)}]


def f_clock(rng, p, t):
    return [{'op': 'clock', 't': t, 'node': pick(rng, names(p, 'ts sk dc')), 'by': uni(rng, 0.1, 8)}]


FAULTS = {'kill_dc': f_kill_dc, 'kill_sk': f_kill_sk, 'kill_ts': f_kill_ts, 'kill_tor': f_kill_tor,
          'reset': f_reset, 'reset_burst': f_reset_burst, 'reset_tor': f_reset_tor, 'partition': f_partition,
          'partition_tor': f_partition_tor, 'slow': f_slow, 'stall': f_stall, 'clock': f_clock}


def add_faults(rng, p, kinds, n, t0, t1):
    'n faults of a random subset of kinds between t0 and t1'
    kinds = sorted(kinds)
    use = sample(rng, kinds, 1 + int(rng.random() * min(3, len(kinds))))
    for _ in range(n):
        p['ops'].extend(FAULTS[pick(rng, use)](rng, p, uni(rng, t0, t1)))
    p['ops'].sort(key=lambda o: o.get('t', 0))
    p['tags'] = sorted(use)
    return p


MOMENTS = ['START', 'START SUCCESS', 'STOP', 'STOP SUCCESS', 'STATUS', 'CHECKIN']


def at_moment(rng, p, kinds=None, after=None):
    '''a fault tied to a protocol message: the nth message of a kind, with a client of the deployment, and a
    short delay after it is sent'''
    kind = pick(rng, kinds or ['START', 'START', 'START SUCCESS', 'STOP', 'STOP', 'STOP SUCCESS', 'START SUCCESS'])
    clients = names(p, 'sk dc')
    who = pick(rng, [None] + clients)
    src, dst = ('ts', who) if kind in ('START', 'STOP', 'CHECKIN') else (who, 'ts')
    n = 1 + int(rng.random() * (3 if who else 2 * len(clients)))
    on = [kind, n, src, dst, after if after is not None else pick(rng, [0.0, 0.001, uni(rng, 0, 0.1),
                                                                        uni(rng, 0, 1.0), uni(rng, 0, 8)])]
    what = pick(rng, ['kill', 'kill', 'reset', 'reset', 'partition', 'stall', 'kill_ts', 'slow'])
    if what == 'kill':
        return {'op': 'kill', 'node': '@client', 'how': pick(rng, ['kill', 'power']), 'down': uni(rng, 0.1, 12), 'on': on}
    if what == 'kill_ts':
        return {'op': 'kill', 'node': 'ts', 'how': pick(rng, ['kill', 'power']), 'down': uni(rng, 0.1, 12), 'on': on}
    if what == 'reset':
        return {'op': 'reset', 'a': '@client', 'b': 'ts', 'on': on}
    if what == 'partition':
        return {'op': 'partition', 'nodes': ['@client', 'ts'], 'd': uni(rng, 0.5, 40), 'on': on}
    if what == 'stall':
        return {'op': 'stall', 'node': pick(rng, ['@client', 'ts']), 'd': uni(rng, 0.2, 15), 'on': on}
    return {'op': 'slow', 'nodes': ['@client', 'ts'], 'd': uni(rng, 5, 40), 'lat': uni(rng, 0.5, 12), 'on': on}


def add_moments(rng, p, n, kinds=None):
    p['ops'] += [at_moment(rng, p, kinds) for _ in range(n)]
    p['tags'] = sorted(set(p['tags'] + ['moment.' + o['op'] for o in p['ops'] if 'on' in o]))
    return p
