'''
One profile per property: how its plans are generated and which oracles decide it.
'''
import gen
import oracles
from profile import Profile, round_probes
from p_noise import C04
from p_delay import C05
from p_blind import C03, C14
from p_hands import C06, C07
from p_ts import C08, C09, C13
from p_tor import C10, C11
from p_events import C16


class C01(Profile):
    'published tallies are exact'
    id = 'C01'

    def gen(self, seed, tier):
        r = self.rng(seed)
        p = gen.base(r, seed, sigma=gen.pick(r, ['zero', 'zero', 'mixed']))
        k = r.random()
        if k > 0.25:
            gen.add_faults(r, p, gen.FAULTS, int(1 + r.random() * 6), 2, p['end'] - 20)
        return p

    def check(self, c):
        return oracles.tally_exact(c)

    def probes(self, c):
        return round_probes(c)


class C02(Profile):
    'a round is published whole or not at all'
    id = 'C02'

    def gen(self, seed, tier):
        r = self.rng(seed)
        p = gen.base(r, seed, sigma='zero', counters=gen.sample(r, gen.PLAIN, 1 + int(r.random() * 2)))
        k = r.random()
        if k > 0.1:
            gen.add_moments(r, p, 1 + int(r.random() * 4))
        if k > 0.6:
            gen.add_faults(r, p, gen.FAULTS, int(1 + r.random() * 4), 2, p['end'] - 20)
        return p

    def check(self, c):
        return oracles.all_or_nothing(c) + oracles.no_reuse(c)

    def probes(self, c):
        return round_probes(c)


PROFILES = dict((k.id, k) for k in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C13,
                                     C14, C16))
