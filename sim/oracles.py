'''
Oracles over the recorded history of one run.  Each returns a list of violations: dictionaries with
'kind' (what is wrong, stable across seeds), 'text' and 't'.
'''
import json
import os

from recorder import flat, signed, MOD


def v(kind, t, text, **kw):
    d = {'kind': kind, 't': round(t, 3), 'text': text}
    d.update(kw)
    return d


def load(cluster, name):
    with open(os.path.join(cluster.rundir, 'results', name)) as f:
        return json.load(f)


def participants(rnd):
    'names of the nodes sent a START in this round: (data collectors, share keepers)'
    dcs, sks = [], []
    for m in rnd.starts:
        if 'sharekeepers' in m.data:
            if m.dst not in dcs:
                dcs.append(m.dst)
        elif m.dst not in sks:
            sks.append(m.dst)
    return dcs, sks


def collections(rec, rnd, dc):
    'the collections of dc that were started for this round'
    starts = set(id(m) for m in rnd.starts)
    return [c for c in rec.collections if c.dc == dc and getattr(c, 'round', None) is rnd]


def published(cluster):
    'rounds with a tallies file on disk, with its content'
    out = []
    for r in cluster.rec.rounds:
        if 'tallies' in r.files:
            try:
                out.append((r, flat(load(cluster, r.files['tallies']))))
            except (ValueError, IOError, KeyError, IndexError):
                out.append((r, None))
    return out


def final_collection(rec, rnd, dc):
    'the collection of dc whose counts were reported in this round, or None'
    got = [c for c in rec.collections if c.dc == dc and c.round is rnd and c.reported]
    return got[-1] if got else None


def noise_bound(cluster, col, name):
    'a bound on the noise of one bin which an honest draw exceeds with probability below 1e-14'
    cfg = col.config
    sigma = cfg.get('noise', {}).get('counters', {}).get(name, {}).get('sigma', 0.0)
    w = cfg.get('noise_weight', {})
    ws = [float(w[fp]) for fp in w if fp in col.fps or fp == '*']
    wt = max(ws) if ws else 0.0
    return int(8 * sigma * wt) + 1 if sigma * wt > 0 else 0


def tally_exact(c):
    'every published tally is the sum, over the data collectors of the round, of what they counted and their noise'
    out = []
    for rnd, tally in published(c):
        if tally is None:
            continue
        dcs, sks = participants(rnd)
        want, slack, ok = {}, {}, True
        for dc in dcs:
            col = final_collection(c.rec, rnd, dc)
            if col is None:
                ok = False
                continue
            for k, r in c.rec.residual(col).items():
                b = noise_bound(c, col, k[0])
                if abs(r) > b:
                    out.append(v('dc-count-wrong', rnd.end,
                                 '%s reported %s off by %d (noise bound %d, counted %d)'
                                 % (dc, k, r, b, col.counts.get(k, 0)), counter=k[0]))
                want[k] = want.get(k, 0) + col.counts.get(k, 0) + r
        if not ok or complete(c, rnd):
            # a missing participant: C02 decides whether publishing was right
            continue
        if set(want) != set(tally):
            out.append(v('tally-bins', rnd.end, 'tally has bins %s, expected %s'
                         % (sorted(set(tally) - set(want))[:3], sorted(set(want) - set(tally))[:3])))
            continue
        for k in sorted(want):
            if signed(want[k]) != tally[k]:
                out.append(v('tally-wrong', rnd.end, '%s is %d, expected %d' % (k, tally[k], signed(want[k])),
                             counter=k[0]))
    return out


def reports(c, rnd):
    'the counts each participant reported in answer to a STOP of this round'
    out = {}
    for r, m in c.rec.stop_answers:
        if r is rnd and m.kind == 'STOP SUCCESS' and m.data.get('Counts') and m.src not in out:
            out[m.src] = m
    return out


def complete(c, rnd):
    dcs, sks = participants(rnd)
    rep = reports(c, rnd)
    return [n for n in dcs + sks if n not in rep]


def all_or_nothing(c):
    out = []
    for rnd, tally in published(c):
        missing = complete(c, rnd)
        if missing:
            out.append(v('partial-tally', rnd.end or c.world.now,
                         'tally %s published without counts from %s' % (rnd.files['tallies'], missing)))
    return out


def no_reuse(c):
    '''counts used in a tally were collected in that round: each answer that completes a round belongs to a
    collection started in it, and no answer completes two rounds'''
    out, used = [], {}
    for rnd, tally in published(c):
        for n, m in sorted(reports(c, rnd).items()):
            if id(m) in used:
                out.append(v('counts-reused', m.t, 'answer of %s used in rounds %d and %d' % (n, used[id(m)], rnd.n)))
            used[id(m)] = rnd.n
            if n.startswith('dc'):
                cols = [k for k in c.rec.collections if k.stop_msg is m]
                if cols and cols[0].round is not rnd:
                    out.append(v('counts-of-other-round', m.t, 'round %d published counts of %s collected in round %s'
                                 % (rnd.n, n, cols[0].round.n if cols[0].round else None)))
    return out
