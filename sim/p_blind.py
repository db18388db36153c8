'''
C03: counts leave a collector only blinded; C14: shares go only to the configured share keepers and only untouched
shares count.
'''
import json
import math
import re

import yaml

import gen
import oracles
import recorder
from oracles import v, noise_bound
from p_noise import chi2_tails, TAIL
from peer import tamper_shares
from profile import Profile, round_probes
from recorder import DIGESTS, PRIV, MOD, flat, open_share, signed

SMALL = 1 << 40         # of 2**70: what chance does not reach
NUM = re.compile(r'\d{6,}')
B64 = re.compile(r'[A-Za-z0-9+/=_-]{80,}')


def markers(line):
    'what in an event identifies somebody'
    out = []
    for w in line.split(' ')[1:]:
        w = w.partition('=')[2] or w
        if w.endswith('.leak.example') or re.match(r'^10\.\d+\.\d+\.\d+$', w):
            out.append(w)
    return out


def numbers(text):
    'integer literals in a message, also inside base64 fields'
    out = set(NUM.findall(text))
    for b in B64.findall(text):
        try:
            d = b.replace('-', '+').replace('_', '/').decode('base64')
        except Exception:
            continue
        out.update(n for n in NUM.findall(d) if len(n) > 14)
    return out


def blinding(c):
    rec, out = c.rec, []
    st = {'blind.collections': 0, 'blind.values': 0, 'blind.reported': 0, 'blind.reports_of_sks': 0,
          'blind.empty_answers': 0, 'blind.events': 0}
    values = []                 # (value, where)
    syms = {}
    for col in rec.collections:
        st['blind.collections'] += 1
        label = '%s at %.1f' % (col.dc, col.t)
        want = set((n, i) for n in col.config['counters'] for i in range(len(bins_of(col, n))))
        per, nbins = {}, 0
        for uid in sorted(col.shares):
            sh = col.shares[uid]
            if uid not in DIGESTS:
                continue
            try:
                vals, sym = open_share(DIGESTS.index(uid), sh['secret'])
                vals = flat(vals)
            except Exception as e:
                out.append(v('share-unreadable', col.t, '%s: the share for %s is not encrypted to its key (%r)'
                             % (label, uid[:6], e)))
                continue
            if sym in syms:
                out.append(v('key-reused', col.t, '%s: the symmetric key of a share was used in %s' % (label, syms[sym])))
            syms[sym] = label
            for other in sorted(col.shares):
                if other != uid and other in DIGESTS:
                    try:
                        open_share(DIGESTS.index(other), sh['secret'])
                    except Exception:
                        continue
                    out.append(v('share-exposed', col.t, '%s: the share for %s opens with the key of %s'
                                 % (label, uid[:6], other[:6])))
            if set(vals) != want:
                out.append(v('share-bins', col.t, '%s: the share for %s has %d bins, the round %d'
                             % (label, uid[:6], len(vals), len(want))))
            per[uid] = vals
            nbins += len(vals)
            for k in sorted(vals):
                values.append((vals[k], '%s %s %s' % (label, uid[:6], k)))
                if not 0 <= vals[k] < MOD:
                    out.append(v('share-range', col.t, '%s: %s of %s is %d' % (label, k, uid[:6], vals[k])))
        if set(per) != set(col.config['sharekeepers']) and not any(x['kind'] == 'share-unreadable' for x in out):
            out.append(v('shares-missing', col.t, '%s: shares for %d of %d share keepers'
                         % (label, len(per), len(col.config['sharekeepers']))))
        if col.share_draw < 8.75 * nbins:
            out.append(v('share-entropy', col.t, '%s: %d blinding values from %d bytes of entropy'
                         % (label, nbins, col.share_draw)))
        if not col.reported:
            continue
        st['blind.reported'] += 1
        rep = flat(col.reported)
        rep.pop(('ZeroCount', 0), None)
        for k in sorted(set(rep) & want):
            r = rep[k]
            if not 0 <= r < MOD:
                out.append(v('count-range', col.ended, '%s: %s is %d' % (label, k, r)))
            # without any one share keeper's value the count stays hidden (so also without more of them)
            tot = sum(per[u].get(k, 0) for u in per)
            hide = [('nothing', 0)] + [('%s' % u[:6], per[u].get(k, 0)) for u in sorted(per)]
            if len(per) > 1:
                hide += [('all but ' + u[:6], tot - per[u].get(k, 0)) for u in sorted(per)]
            else:
                hide = hide[:1]
            for who, s in hide:
                if abs(signed(r - s)) < SMALL:
                    out.append(v('count-exposed', col.ended, '%s: %s less the blinding of %s is %d'
                                 % (label, k, who, signed(r - s))))
            # when client addresses are counted is another property
            b = noise_bound(c, col, k[0]) + (1000 if k[0] in gen.CLIENT else 0)
            d = signed(r - tot - col.counts.get(k, 0))
            if len(per) == len(col.config['sharekeepers']) and abs(d) > b:
                out.append(v('count-not-masked-once', col.ended, '%s: %s is off by %d after removing every share'
                             % (label, k, d)))
    # fresh: no two values equal, opposite, or close
    st['blind.values'] = len(values)
    values.sort()
    for a, b in zip(values, values[1:]):
        if b[0] - a[0] < 4096:
            out.append(v('blinding-repeated', c.world.now, '%s and %s differ by %d' % (a[1], b[1], b[0] - a[0])))
    neg = sorted([(MOD - x, w) for x, w in values] + values)
    for a, b in zip(neg, neg[1:]):
        if b[0] - a[0] < 4096 and a[1] != b[1] and not any(x['kind'] == 'blinding-repeated' for x in out):
            out.append(v('blinding-opposite', c.world.now, '%s and %s add up to %d' % (a[1], b[1], b[0] - a[0])))
    n = len(values)
    if n >= 60:
        for bit in range(70):
            k = sum((x >> bit) & 1 for x, _ in values)
            z = abs(k - n / 2.0) / math.sqrt(n / 4.0)
            if z > 7.2:
                out.append(v('blinding-not-uniform', c.world.now, 'bit %d of %d blinding values is set %d times'
                             % (bit, n, k)))
        if n >= 160:
            cells = [0] * 16
            for x, _ in values:
                cells[(x >> 66) & 15] += 1
            q = sum((k - n / 16.0) ** 2 for k in cells) * 16.0 / n
            if chi2_tails(15, q)[1] < 1e-13:
                out.append(v('blinding-not-uniform', c.world.now, 'the top bits of %d blinding values: %s' % (n, cells)))
    c.blind_stats = st
    return out + release(c, st, set(str(x) for x, _ in values))


def bins_of(col, name):
    return col.config['counters'][name]['bins']


def release(c, st, secret_numbers):
    'what leaves a node, message by message'
    rec, out = c.rec, []
    for n in c.dcs + c.sks:
        name = n.name
        dc = name.startswith('dc')
        ev = [(m.t, m.seq, m) for m in rec.msgs if m.src == name]
        ev += [(m.got, m.seq, m) for m in rec.msgs if m.dst == name and m.got is not None and m.kind in ('START', 'STOP')]
        ev.sort(key=lambda e: (e[0], 0 if e[2].dst == name else 1, e[1]))
        active = asked = None
        inc = None
        marks, totals = set(), []
        for t, _, m in ev:
            i = m.inc if m.src == name else m.got_inc
            if i != inc:
                active, asked, inc = None, None, i
            if m.dst == name:
                asked = m
                if m.kind == 'STOP':
                    stopping, active = active, None
                continue
            if m.kind == 'START SUCCESS' and asked is not None:
                active = asked
            counts = None
            if m.kind == 'STOP SUCCESS':
                counts = m.data.get('Counts')
                if counts is not None:
                    stop = asked
                    if stop is None or stop.kind != 'STOP':
                        out.append(v('counts-unasked', t, '%s sent counts without a stop' % name))
                        continue
                    if stop.data.get('send_counters') is not True:
                        out.append(v('counts-unasked', t, '%s sent counts to a stop that asks for none' % name))
                    if stopping is None:
                        out.append(v('counts-again', t, '%s sent counts of no running collection' % name))
                    elif not dc:
                        st['blind.reports_of_sks'] += 1
                        out += keeper(c, name, stopping, m, counts)
                    stopping = None
                else:
                    st['blind.empty_answers'] += 1
            elif '"Counts"' in m.text:
                out.append(v('counts-unasked', t, '%s sent counts in %s' % (name, m.kind)))
            if m.kind.startswith('HANDSHAKE') or m.kind.startswith('CHECKIN'):
                continue
            text = m.text
            if counts is not None:
                # the counts themselves are judged above: without noise or events they equal a blinding value
                rest = dict((k, m.data[k]) for k in m.data if k != 'Counts')
                rest['about'] = [(n, [(k, counts[n][k]) for k in sorted(counts[n]) if k != 'bins'],
                                  [b[:2] + b[3:] for b in counts[n]['bins']]) for n in sorted(counts)]
                text = json.dumps(rest)
            nums = numbers(text)
            got = nums & secret_numbers
            if got:
                out.append(v('share-exposed', t, '%s sent the blinding value %s in %s' % (name, sorted(got)[0], m.kind)))
            if dc:
                cols = [x for x in rec.collections if x.dc == name and x.inc == m.inc and x.t <= t]
                for x in cols[-2:]:
                    big = set(str(k) for k in x.counts.values() if k >= 1000000)
                    bare = nums & big
                    if bare:
                        out.append(v('count-in-clear', t, '%s sent the count %s in %s' % (name, sorted(bare)[0], m.kind)))
                    for _, _, line in x.lines:
                        for mk in markers(line):
                            if mk in m.text:
                                out.append(v('event-exposed', t, '%s sent "%s" of an event in %s' % (name, mk, m.kind)))
                    st['blind.events'] += len(x.lines) if m.kind == 'STOP SUCCESS' else 0
    return out


def keeper(c, name, start, m, counts):
    key = c.plan['sks'][int(name[2:])]['key']
    want = dict(((n, i), 0) for n in start.data['counters'] for i in range(len(start.data['counters'][n]['bins'])))
    for s in start.as_got.get('shares', []):
        try:
            vals = flat(open_share(key, s['secret'])[0])
        except Exception:
            return [v('counts-of-bad-share', m.t, '%s reports counts with a share it cannot open' % name)]
        for k in vals:
            want[k] = want.get(k, 0) - vals[k]
    got = flat(counts)
    bad = [k for k in sorted(set(got) | set(want)) if k in want and k in got and (got[k] - want[k]) % MOD]
    bad += [k for k in sorted(set(want) - set(got))]
    if bad or set(got) - set(want):
        return [v('keeper-sum', m.t, '%s reports something else than the sum of its blinding values for %s'
                  % (name, (bad or sorted(set(got) - set(want)))[:3]))]
    return []


class C03(Profile):
    id = 'C03'

    def gen(self, seed, tier):
        r = self.rng(seed)
        rogue = r.random() < 0.5
        wide = gen.pick(r, [20, 30])
        names = ['ExitStreamByteHistogram', 'EntryConnectionByteCount', 'EntryConnectionByteHistogram']
        names += gen.sample(r, [n for n in gen.NAMES if n not in names and gen.COUNTERS[n]], 1 + int(r.random() * 3))
        p = gen.base(r, seed, counters=sorted(names), rounds=gen.pick(r, [2, 3]), dcs=gen.pick(r, [1, 1, 2]),
                     sks=gen.pick(r, [1, 2, 3]))
        edges = [float(i * 3001) for i in range(wide)] + [float('inf')]
        p['bins'] = {'ExitStreamByteHistogram': [[edges[i], edges[i + 1]] for i in range(wide)]}
        if r.random() < 0.3:
            p['sigmas'] = dict((n, gen.pick(r, [0.0, 50.0, 5000.0])) for n in names)
        for d in p['dcs']:
            d['tor'].update({'marked': True, 'rate': gen.uni(r, 0.3, 1.5), 'clients': 40})
            d['rotate'] = gen.pick(r, [600, 10])
        if not rogue:
            if r.random() < 0.6:
                gen.add_faults(r, p, ['kill_dc', 'kill_sk', 'kill_tor', 'reset', 'reset_tor', 'partition', 'stall'],
                               1 + int(r.random() * 4), 2, p['end'] - 20)
            if r.random() < 0.4:
                gen.add_moments(r, p, 2, ['STOP', 'STOP SUCCESS', 'START', 'START SUCCESS'])
            return p
        p['rogue'] = {'checkin': 1}
        p['net'] = {'lat': gen.pick(r, [[0.001, 0.05], [0.002, 0.3]]), 'chunk': 0}
        t = 10.0
        dcs = ['dc%d' % i for i in range(len(p['dcs']))]
        sks = ['sk%d' % i for i in range(len(p['sks']))]
        for k in range(gen.pick(r, [3, 4, 5])):
            for rep in range(gen.pick(r, [1, 1, 2])):
                cmd = {'op': 'cmd', 'cmd': 'start', 'dcs': dcs, 'defer': gen.pick(r, [0.1, 1.0, 6.0])}
                for n in dcs + sks:
                    if r.random() < 0.92:
                        p['ops'].append(dict(cmd, t=round(t + (2.0 if n in sks else 0.0), 3), node=n))
                t += gen.uni(r, 1, 5)
            t += gen.pick(r, [gen.uni(r, 0, 3), gen.uni(r, 6, 15)])
            for rep in range(gen.pick(r, [1, 2, 2, 3])):
                for n in dcs + sks:
                    s = {'op': 'cmd', 'cmd': 'stop', 't': round(t, 3), 'node': n, 'send': True}
                    x = r.random()
                    if x < 0.2:
                        s['send'] = False
                    elif x < 0.3:
                        s['data'] = gen.pick(r, [{}, {'send_counters': None}])
                    p['ops'].append(s)
                t += gen.uni(r, 0.2, 3)
            t += gen.uni(r, 1, 4)
        p['end'] = int(t + 8)
        if r.random() < 0.5:
            gen.add_faults(r, p, ['kill_dc', 'kill_sk', 'reset', 'reset_tor', 'kill_tor'], 1 + int(r.random() * 3), 8, t)
        p['ops'].sort(key=lambda o: o.get('t', 0))
        return p

    def check(self, c):
        return blinding(c)

    def probes(self, c):
        d = round_probes(c)
        d.update(c.blind_stats)
        return d


def offered_digests(m):
    out = []
    for uid in m.data['sharekeepers']:
        try:
            pem = m.data['sharekeepers'][uid].decode('base64')
        except Exception:
            return None
        if pem not in recorder.PUBLIC:
            return None
        out.append(DIGESTS[recorder.PUBLIC.index(pem)])
    return sorted(out)


def shares_kept(c):
    rec, out = c.rec, []
    st = {'shares.starts_dc': 0, 'shares.starts_sk': 0, 'shares.wrong_sets': 0, 'shares.bad': 0}
    for m in rec.msgs:
        if m.kind != 'START' or m.got is None:
            continue
        ans = [a for a in rec.by_conn[m.conn] if a.src == m.dst and a.seq > m.seq and a.kind.startswith('START ')
               and abs(a.t - m.got) < 1e-9]
        ok = bool(ans) and ans[0].kind == 'START SUCCESS'
        if m.dst.startswith('dc') and 'sharekeepers' in m.data:
            st['shares.starts_dc'] += 1
            conf = [x for x in rec.reads if x[1] == m.dst and x[2] == m.got_inc and x[3] == m.dst + '.yaml'
                    and x[0] <= m.got]
            want = sorted(yaml.load(conf[-1][4])['data_collector']['share_keepers'])
            good = offered_digests(m) == want
            st['shares.wrong_sets'] += not good
            if ok and not good:
                out.append(v('wrong-share-keepers', m.got, '%s took part with share keepers %s, configured %s'
                             % (m.dst, [x[:6] for x in offered_digests(m) or ['unknown']], [x[:6] for x in want])))
            if ok:
                # each share opens with the key offered under its name
                for uid in m.data['sharekeepers']:
                    pem = m.data['sharekeepers'][uid].decode('base64')
                    if pem not in recorder.PUBLIC:
                        continue
                    try:
                        open_share(recorder.PUBLIC.index(pem), ans[0].data[uid]['secret'])
                    except Exception:
                        out.append(v('share-for-another', m.got, '%s: the share named %s does not open with the key offered'
                                     ' under that name' % (m.dst, uid[:6])))
        if m.dst.startswith('sk') and 'shares' in m.data:
            st['shares.starts_sk'] += 1
            key = c.plan['sks'][int(m.dst[2:])]['key']
            text = m.as_got
            bad = share_faults(key, text)
            st['shares.bad'] += bool(bad)
            if ok and bad:
                out.append(v('bad-share-accepted', m.got, '%s took part although %s' % (m.dst, bad)))
    c.share_stats = st
    return out


def share_faults(key, data):
    'why a share keeper must not take part with these shares'
    for i, s in enumerate(data.get('shares', [])):
        try:
            vals = open_share(key, s['secret'])[0]
        except Exception:
            return 'share %d does not decrypt with its key' % i
        for n in data['counters']:
            if n not in vals or 'bins' not in vals[n] or len(vals[n]['bins']) != len(data['counters'][n]['bins']) or \
               any(len(b) != 3 for b in vals[n]['bins']):
                return 'share %d does not cover %s' % (i, n)
    return None


def mangle(line, t, dst_uid):
    'alters the shares in a message on its way; None when there are none'
    i = line.find('{')
    if i < 0:
        return None
    try:
        data = json.loads(line[i:])
    except ValueError:
        return None
    if 'shares' in data:
        tamper_shares(data['shares'], t, None, dst_uid)
        if t.get('also'):
            tamper_shares(data['shares'], t['also'], None, dst_uid)
    elif line.startswith('START SUCCESS'):
        uids = sorted(u for u in data if u in DIGESTS)
        if not uids:
            return None
        u = uids[t.get('i', 0) % len(uids)]
        tamper_shares([data[u]], dict(t, i=0), None, u)
    else:
        return None
    return line[:i] + json.dumps(data) + '\r\n'


CRAFT = ['counter', 'bin', 'nobins', 'extra-bin', 'short', 'empty']


def flip(r):
    return {'kind': 'flip', 'i': int(r.random() * 3), 'field': int(r.random() * 2), 'at': round(r.random(), 4),
            'bit': int(r.random() * 8)}


class C14(Profile):
    id = 'C14'

    def gen(self, seed, tier):
        r = self.rng(seed)
        rogue = r.random() < 0.6
        names = gen.sample(r, gen.FIXED, 1 + int(r.random() * 3))
        p = gen.base(r, seed, counters=sorted(names), rounds=2, dcs=gen.pick(r, [1, 2, 2]), sks=gen.pick(r, [1, 2, 3]))
        p['tampers'] = []
        if not rogue:
            for _ in range(1 + int(r.random() * 2)):
                t = flip(r)
                if r.random() < 0.3:
                    t['kind'] = gen.pick(r, ['cut', 'craft', 'craft', 'no-secret', 'empty'])
                    t['how'] = gen.pick(r, CRAFT)
                    t['counter'] = int(r.random() * 5)
                t['msg'] = gen.pick(r, ['START', 'START', 'START SUCCESS'])
                t['nth'] = 1 + int(r.random() * 4)
                p['tampers'].append(t)
            if r.random() < 0.3:
                # an operator replaces the list of a collector
                i = int(r.random() * len(p['dcs']))
                p['ops'].append({'op': 'conf', 't': gen.uni(r, 5, p['end'] * 0.7), 'node': 'dc%d' % i,
                                 'set': {'share_keepers': self.wrong(r, [s['key'] for s in p['sks']])}})
            if r.random() < 0.3:
                gen.add_faults(r, p, ['kill_dc', 'kill_sk', 'reset', 'slow'], 1 + int(r.random() * 2), 2, p['end'] - 20)
            return p
        p['rogue'] = {'checkin': 2}
        p['net'] = {'lat': gen.pick(r, [[0.001, 0.05], [0.002, 0.3]]), 'chunk': 0}
        own = [s['key'] for s in p['sks']]
        dcs = ['dc%d' % i for i in range(len(p['dcs']))]
        sks = ['sk%d' % i for i in range(len(p['sks']))]
        for d in p['dcs']:
            d['tor']['rate'] = 0.3
        t = 9.0
        for k in range(gen.pick(r, [6, 8, 10])):
            offer = self.offer(r, own)
            for n in dcs:
                cmd = {'op': 'cmd', 'cmd': 'start', 't': round(t, 3), 'node': n, 'defer': 0.1}
                if offer is not None:
                    cmd['sks'] = offer
                p['ops'].append(cmd)
            t += gen.uni(r, 2.5, 4)
            for n in sks:
                cmd = {'op': 'cmd', 'cmd': 'start', 't': round(t, 3), 'node': n, 'dcs': dcs}
                if r.random() < 0.6:
                    cmd['tamper'] = self.tamper(r)
                p['ops'].append(cmd)
                if r.random() < 0.2:
                    # tries again, as it should have been
                    p['ops'].append({'op': 'cmd', 'cmd': 'start', 't': round(t + 0.5, 3), 'node': n, 'dcs': dcs})
            t += gen.uni(r, 2.5, 5)
            for n in dcs + sks:
                p['ops'].append({'op': 'cmd', 'cmd': 'stop', 't': round(t, 3), 'node': n, 'send': True})
            t += gen.uni(r, 2.5, 4)
            if r.random() < 0.25:
                i = int(r.random() * len(dcs))
                p['ops'].append({'op': 'conf', 't': round(t - 1, 3), 'node': 'dc%d' % i,
                                 'set': {'share_keepers': self.wrong(r, own) if r.random() < 0.6 else
                                         [DIGESTS[x] for x in own]}})
        p['end'] = int(t + 5)
        # a share keeper exits on what it cannot decrypt
        for i in range(len(sks)):
            for x in range(12, p['end'], 7):
                p['ops'].append({'op': 'start', 't': float(x), 'node': 'sk%d' % i})
        p['ops'].sort(key=lambda o: o.get('t', 0))
        return p

    def wrong(self, r, own):
        'another list of share keepers for a config file'
        others = [k for k in range(5) if k not in own]
        how = gen.pick(r, ['more', 'fewer', 'other', 'order', 'case'])
        keys = list(own)
        if how == 'more' and others:
            keys.append(gen.pick(r, others))
        elif how == 'fewer' and len(keys) > 1:
            keys.pop(int(r.random() * len(keys)))
        elif how == 'other' and others:
            keys[int(r.random() * len(keys))] = gen.pick(r, others)
        else:
            keys.reverse()
        return [DIGESTS[k] for k in keys]

    def offer(self, r, own):
        others = [k for k in range(5) if k not in own]
        how = gen.pick(r, ['right', 'right', 'right', 'missing', 'extra', 'other', 'other-named', 'twice', 'swapped',
                           'none', 'renamed', 'twice-more'])
        if how == 'right':
            return None
        keys = list(own)
        i = int(r.random() * len(keys))
        if how == 'missing':
            keys.pop(i)
        elif how == 'extra':
            keys.append(gen.pick(r, others))
        elif how == 'other':
            keys[i] = gen.pick(r, others)
        elif how == 'other-named':
            # the right name with another key
            keys[i] = [keys[i], gen.pick(r, others)]
        elif how == 'twice':
            # one key in two places
            j = (i + 1) % len(keys)
            keys[i] = [keys[i], keys[j]]
        elif how == 'twice-more':
            keys.append(['again', keys[i]])
        elif how == 'swapped' and len(keys) > 1:
            j = (i + 1) % len(keys)
            keys[i], keys[j] = [own[i], own[j]], [own[j], own[i]]
        elif how == 'renamed':
            keys[i] = ['keeper', keys[i]]
        elif how == 'none':
            return []
        return keys

    def tamper(self, r):
        x = r.random()
        if x < 0.4:
            return flip(r)
        if x < 0.7:
            return {'kind': 'craft', 'how': gen.pick(r, CRAFT), 'i': int(r.random() * 3), 'counter': int(r.random() * 5)}
        return {'kind': gen.pick(r, ['cut', 'other-sk', 'plain', 'no-secret', 'empty']), 'i': int(r.random() * 3),
                'field': int(r.random() * 2), 'at': round(r.random(), 3)}

    def attach(self, c):
        left = [[t, t['nth']] for t in c.plan.get('tampers', [])]
        if not left:
            return
        ts = c.world.nodes['ts']

        def tamper(conn, end, data):
            kind = 'START' if end.node is ts and data.startswith('START ') else \
                   'START SUCCESS' if data.startswith('START SUCCESS') else None
            if kind is None or (kind == 'START' and '"shares"' not in data):
                return data
            for x in left:
                t = x[0]
                if t['msg'] == kind and x[1] > 0:
                    x[1] -= 1
                    if x[1] == 0:
                        peer = conn.peer(end).node.name
                        uid = DIGESTS[c.plan['sks'][int(peer[2:])]['key']] if peer.startswith('sk') else None
                        new = mangle(data, t, uid)
                        if new is not None and new != data:
                            c.world.count('fault.tamper-' + t['kind'])
                            data = new
            return data

        class Watch(object):
            def on_accept(self, conn):
                if conn.server.node is ts:
                    conn.tampers.append(tamper)
        c.world.watchers.append(Watch())

    def check(self, c):
        st = dict.fromkeys(['blind.empty_answers', 'blind.reports_of_sks', 'blind.events'], 0)
        kept = [x for x in release(c, st, set()) if x['text'].startswith('sk')]
        c.share_stats_kept = st['blind.reports_of_sks']
        return shares_kept(c) + kept + (oracles.tally_exact(c) + oracles.all_or_nothing(c) if not c.rogue else [])

    def probes(self, c):
        d = round_probes(c)
        d.update(c.share_stats)
        d['shares.reports'] = c.share_stats_kept
        return d
