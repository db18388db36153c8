'''
C04: noise is added exactly once per collection, with the configured deviation.

The residual of a bin (reported count minus blinding minus what the reference counted) is the noise.  It is
judged against sigma (from the START the collector received, which must be what the operator configured) times
the weight of the relay that first identified itself in the collection.
'''
import math

import gen
from cluster import fingerprint
from oracles import v
from profile import Profile, round_probes

# a test that an honest draw fails with less than this probability is failed
TAIL = 1e-11
HEX = set('0123456789abcdefABCDEF')


def gammaq(a, x):
    'the regularised upper incomplete gamma function'
    if x <= 0:
        return 1.0
    lg = a * math.log(x) - x - math.lgamma(a)
    if x < a + 1:
        t = s = 1.0 / a
        n = a
        for _ in range(100000):
            n += 1
            t *= x / n
            s += t
            if t < s * 1e-16:
                break
        return 1.0 - s * math.exp(lg)
    tiny = 1e-300
    b = x + 1 - a
    c = 1 / tiny
    d = 1 / b
    h = d
    for i in range(1, 100000):
        an = -i * (i - a)
        b += 2
        d = an * d + b
        d = 1 / (d if abs(d) > tiny else tiny)
        c = b + an / c
        c = c if abs(c) > tiny else tiny
        h *= d * c
        if abs(d * c - 1) < 1e-15:
            break
    return math.exp(lg) * h if lg > -700 else 0.0


def gammap(a, x):
    'the regularised lower incomplete gamma function, accurate when it is small'
    if x <= 0:
        return 0.0
    if x >= a + 1:
        return 1.0 - gammaq(a, x)
    lg = a * math.log(x) - x - math.lgamma(a)
    t = s = 1.0 / a
    n = a
    for _ in range(100000):
        n += 1
        t *= x / n
        s += t
        if t < s * 1e-16:
            break
    return s * math.exp(lg) if lg > -700 else 0.0


def chi2_tails(n, q):
    return gammap(n / 2.0, q / 2.0), gammaq(n / 2.0, q / 2.0)


def first_valid(fps):
    for f in fps:
        f = f.strip()
        if len(f) == 40 and all(ch in HEX for ch in f):
            return f
    return None


def weight_of(cfg, fp):
    'None when the tally server gave the relay no weight'
    w = cfg.get('noise_weight', {})
    if fp is not None and fp in w:
        return w[fp]
    return w.get('*')


def lower_rate(zs):
    n = len(zs)
    return sum(z * z for z in zs) / n if n else 0.0


def judge(label, zs, t, out, kinds):
    n = len(zs)
    if n < 20:
        return
    q = sum(z * z for z in zs)
    lo, hi = chi2_tails(n, q)
    if lo < TAIL:
        out.append(v('noise-too-small', t, '%s: %d bins have noise of %.3f of the configured deviation'
                     % (label, n, math.sqrt(q / n))))
    elif hi < TAIL:
        out.append(v('noise-too-large', t, '%s: %d bins have noise of %.3f of the configured deviation'
                     % (label, n, math.sqrt(q / n))))
    m = sum(zs) / math.sqrt(n)
    if math.erfc(abs(m) / math.sqrt(2)) < TAIL:
        out.append(v('noise-biased', t, '%s: mean noise of %d bins is %.3f deviations' % (label, n, sum(zs) / n)))


def noise_right(c):
    out, tot, none = [], {}, {}
    seen = []
    st = {'noise.collections': 0, 'noise.bins': 0, 'noise.zero_bins': 0, 'noise.no_weight': 0, 'noise.default': 0,
          'noise.at_stop': 0, 'noise.relearnt': 0}
    for col in c.rec.collections:
        if col.ended is None:
            continue
        fp = first_valid(col.fps)
        cfg = col.config
        w = weight_of(cfg, fp)
        label = '%s at %.1f (relay %s, weight %s)' % (col.dc, col.t, fp and fp[:6], w)
        if col.reported and w is None:
            out.append(v('counts-without-weight', col.ended, label + ' reported counts'))
            continue
        if w is None:
            st['noise.no_weight'] += 1
        if not col.reported:
            continue
        st['noise.collections'] += 1
        st['noise.default'] += fp not in cfg.get('noise_weight', {})
        st['noise.at_stop'] += fp is None
        st['noise.relearnt'] += len(col.fps) > 1
        res = c.rec.residual(col)
        zs, big, noisy = [], {}, 0
        for k in sorted(res):
            s = float(cfg['noise']['counters'][k[0]]['sigma']) * w
            r = res[k]
            if s == 0:
                st['noise.zero_bins'] += 1
                if r != 0:
                    out.append(v('noise-unwanted', col.ended, '%s: %s has noise %d, none was configured'
                                 % (label, k, r)))
                continue
            noisy += 1
            z = r / math.sqrt(s * s + 1 / 12.0)
            # a single bin eight deviations out
            if abs(r) > 8.5 * s + 1:
                out.append(v('noise-too-large', col.ended, '%s: %s has noise %d, deviation %.1f' % (label, k, r, s)))
            if s < 0.4:
                # mostly rounded to zero: not normal any more
                continue
            st['noise.bins'] += 1
            if s >= 100:
                p0 = 0.4 / s
                for key in ('all bins', k):
                    e = none.setdefault(key, [0.0, 0])
                    e[0] += p0
                    e[1] += r == 0
            zs.append(z)
            tot.setdefault('all', []).append(z)
            tot.setdefault('relearnt' if len(col.fps) > 1 else 'once', []).append(z)
            tot.setdefault(k[0], []).append(z)
            if s >= 1000:
                big.setdefault(k[0], []).append(r)
        judge(label, zs, col.ended, out, st)
        for name in big:
            vals = big[name]
            if len(vals) >= 20 and len(set(vals)) < len(vals) * 0.7:
                out.append(v('noise-repeated', col.ended, '%s: %s has %d different values of noise in %d bins'
                             % (label, name, len(set(vals)), len(vals))))
            for other, oname, ovals in seen:
                if len(vals) == len(ovals) and len(vals) >= 20:
                    # scaled copies count too
                    n = len(vals)
                    sx, sy = math.sqrt(sum(x * x for x in vals)), math.sqrt(sum(x * x for x in ovals))
                    rho = sum(x * y for x, y in zip(vals, ovals)) / (sx * sy) if sx and sy else 1.0
                    if abs(rho) > min(0.97, 7.5 / math.sqrt(n)):
                        out.append(v('noise-reused', col.ended, '%s: %s has the noise of %s of %s (correlation %.3f)'
                                     % (label, name, oname, other, rho)))
            seen.append((label, name, vals))
        # the noise of a collection is drawn in one go (or over several) from operating system entropy
        if noisy >= 20 and sum(col.draws) < 6 * noisy:
            out.append(v('noise-entropy', col.ended, '%s: %d noisy bins from %d bytes of entropy'
                         % (label, noisy, sum(col.draws))))
    for k in sorted(tot):
        judge('all collections, ' + k, tot[k], c.world.now, out, st)
    for key in sorted(none):
        lam, n = none[key]
        if n and gammap(n, lam) < TAIL:
            out.append(v('noise-missing', c.world.now, '%s: %d bins without any noise' % (key, n)))
    c.noise_stats = st
    return out


def noise_asked(c):
    'the noise allocation and weights in START are ones the operator configured'
    out = []
    for m in c.rec.msgs:
        if m.kind != 'START' or 'sharekeepers' not in m.data:
            continue
        names = set(c.plan['counters'])
        got = dict((k, float(x['sigma'])) for k, x in m.data['noise']['counters'].items() if k in names)
        start = m.round.t
        sig = [h[2] for h in c.history if h[1] == 'sigmas' and h[0] <= start]
        wts = [h[2].get('noise_weight') for h in c.history if h[1] == 'ts' and h[0] <= start]
        for name, val, have in (('sigmas', got, sig), ('ts', m.data['noise_weight'], wts)):
            if val not in have:
                out.append(v('noise-not-configured', m.t, 'START to %s has %s %s' % (m.dst, name, val)))
                continue
            # once an edit has settled, the latest one
            t = [h[0] for h in c.history if h[1] == name and h[0] <= start][-1]
            if c.quiet_ts and start - t > 3 * c.cfg['ts']['event_period'] + 20 and val != have[-1]:
                out.append(v('noise-config-stale', m.t, 'START to %s has an old noise configuration' % m.dst))
    return out


class C04(Profile):
    id = 'C04'

    def gen(self, seed, tier):
        r = self.rng(seed)
        wide = gen.pick(r, [24, 40, 60])
        names = ['ExitStreamByteHistogram', 'EntryConnectionByteHistogram', 'ExitStreamCount', 'EntryConnectionCount']
        names += gen.sample(r, [n for n in gen.NAMES if n not in names], int(r.random() * 3))
        p = gen.base(r, seed, counters=sorted(names), rounds=gen.pick(r, [2, 3]), dcs=gen.pick(r, [1, 2, 2]),
                     sks=gen.pick(r, [1, 1, 2]))
        edges = [float(i * 97) for i in range(wide)] + [float('inf')]
        bins = [[edges[i], edges[i + 1]] for i in range(wide)]
        p['bins'] = {'ExitStreamByteHistogram': bins, 'EntryConnectionByteHistogram': bins[:wide // 2 - 1] +
                     [[edges[wide // 2 - 1], float('inf')]]}

        def sigmas():
            return dict((n, gen.pick(r, [0.0, 0.7, 50.0, 3000.0, 1e6, 1e9]) if r.random() < 0.5 else
                         gen.pick(r, [3000.0, 1e6])) for n in p['counters'])
        p['sigmas'] = sigmas()
        for d in p['dcs']:
            d['weight'] = gen.pick(r, [1.0, 0.5, 0.01, 2.5, 1.0, 0.0, 1])
            d['tor']['rate'] = gen.uni(r, 0.05, 0.6)
        n = len(p['dcs'])
        w = dict((fingerprint(i), p['dcs'][i]['weight']) for i in range(n))
        spare = fingerprint(50)
        k = r.random()
        if k < 0.25:
            # a relay without a weight
            w.pop(fingerprint(int(r.random() * n)))
            w[spare] = 0.3
        elif k < 0.5:
            w['*'] = gen.pick(r, [0.2, 1.5, 4.0])
            if r.random() < 0.6:
                w.pop(fingerprint(int(r.random() * n)))
        if r.random() < 0.7:
            w[spare] = 3.0
        while len(w) < n and '*' not in w:
            w[fingerprint(60 + len(w))] = 1.0
        p['ts']['noise_weight'] = w
        # Tor comes and goes, as itself or as another relay
        for i in range(n):
            tor, t0 = 'tor%d' % i, 0
            for _ in range(int(r.random() * 4)):
                t = gen.uni(r, 3, p['end'] - 10)
                x = r.random()
                if x < 0.3:
                    p['ops'].append({'op': 'reset', 't': t, 'a': tor, 'b': 'dc%d' % i})
                elif x < 0.7:
                    p['ops'].append({'op': 'kill', 't': t, 'node': tor, 'down': gen.uni(r, 0.1, 25)})
                    if x > 0.5:
                        p['ops'].append({'op': 'tor', 't': round(t + 0.01, 3), 'node': tor, 'set':
                                         {'fingerprint': gen.pick(r, [spare, spare, fingerprint(70), fingerprint(i),
                                                                      None])}})
                elif x < 0.85:
                    p['ops'].append({'op': 'kill', 't': t, 'node': tor, 'down': gen.uni(r, 20, 60)})
                else:
                    p['ops'].append({'op': 'partition', 't': t, 'nodes': [tor, 'dc%d' % i], 'd': gen.uni(r, 0.5, 40)})
            if r.random() < 0.5:
                # another relay takes over the control port in the middle of a collection
                nth, dt = 1 + int(r.random() * 2), gen.uni(r, 3, 9)
                p['ops'].append({'op': 'kill', 'node': tor, 'down': gen.uni(r, 0.1, 3),
                                 'on': ['START SUCCESS', nth, 'dc%d' % i, 'ts', dt]})
                p['ops'].append({'op': 'tor', 'node': tor, 'set': {'fingerprint': gen.pick(r, [
                    spare, spare, fingerprint(i), fingerprint(i).lower(), fingerprint(0)])},
                    'on': ['START SUCCESS', nth, 'dc%d' % i, 'ts', round(dt + 0.01, 3)]})
            if r.random() < 0.15:
                p['boot'][tor] = gen.uni(r, 0, p['end'])
            if r.random() < 0.1:
                p['dcs'][i]['tor']['fingerprint'] = gen.pick(r, [None, 'ABCD', 'Z' * 40, fingerprint(i).lower()])
                p['ops'].append({'op': 'tor', 't': gen.uni(r, 5, p['end']), 'node': tor,
                                 'set': {'fingerprint': fingerprint(i)}})
        p['quiet_ts'] = True
        if r.random() < 0.3:
            for _ in range(1 + int(r.random() * 2)):
                p['ops'].append({'op': 'sigmas', 't': gen.uni(r, 5, p['end'] - 20), 'sigmas': sigmas()})
        if r.random() < 0.3:
            nw = dict((f, gen.pick(r, [0.1, 1.0, 2.0, 5.0])) for f in w)
            p['ops'].append({'op': 'conf', 't': gen.uni(r, 5, p['end'] - 20), 'node': 'ts',
                             'set': {'noise_weight': nw}})
        if r.random() < 0.35:
            p['quiet_ts'] = False
            gen.add_faults(r, p, ['kill_dc', 'reset', 'partition', 'kill_ts', 'stall', 'clock'],
                           1 + int(r.random() * 3), 2, p['end'] - 20)
        p['ops'].sort(key=lambda o: o.get('t', 0))
        return p

    def attach(self, c):
        c.quiet_ts = c.plan.get('quiet_ts', False)

    def check(self, c):
        return noise_right(c) + noise_asked(c)

    def probes(self, c):
        d = round_probes(c)
        d.update(c.noise_stats)
        return d
