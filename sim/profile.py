'What every profile has.'
from simcore import Rng, subseed


class Profile(object):
    id = None

    def rng(self, seed):
        return Rng(subseed('gen', self.id, seed))

    def gen(self, seed, tier):
        raise NotImplementedError

    def attach(self, c):
        pass

    def check(self, c):
        return []

    def probes(self, c):
        return {}


def round_probes(c):
    out = {'rounds.started': len(c.rec.rounds), 'rounds.published': 0, 'rounds.failed': 0, 'rounds.cut': 0}
    for r in c.rec.rounds:
        if 'tallies' in r.files:
            out['rounds.published'] += 1
        elif r.how == 'outcome':
            out['rounds.failed'] += 1
        else:
            out['rounds.cut'] += 1
    return out
