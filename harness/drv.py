"""Drive the real code.

    drv.py trace PROPERTY tier seed shard nshards OUT      record a trace
    drv.py replay KIND FILE tier seed                      compare generated behaviours with the code
"""
import importlib
import json
import random
import resource
import sys

import alpha  # noqa: F401  (imports the code under test first)
from alpha import guarded, outcome


class Ctx(object):
    def __init__(self, prop, tier, seed, shard, nshards, out):
        self.prop, self.tier, self.shard, self.nshards = prop, tier, shard, nshards
        self.seed = seed
        self.rng = random.Random('%s/%s/%s' % (prop, seed, shard))
        self.out = open(out, 'w')
        self.n = 0

    def scale(self, quick, thorough):
        return quick if self.tier == 'quick' else thorough

    def mine(self, items):
        """The items of a common list that this shard looks at."""
        return [x for i, x in enumerate(items) if i % self.nshards == self.shard]

    def emit(self, k, py='', **kw):
        d = {'k': k}
        d.update(kw)
        d['py'] = py.encode('ascii', 'backslashreplace').decode()[:600]
        self.out.write(json.dumps(d, separators=(',', ':')) + '\n')
        self.n += 1


MODULES = {'C01': 'd_lang', 'C02': 'd_lang', 'C03': 'd_lang', 'C20': 'd_lang',
           'C04': 'd_values', 'C05': 'd_values', 'C06': 'd_values',
           'C07': 'd_index', 'C08': 'd_index', 'C09': 'd_numpy', 'C10': 'd_numpy',
           'C11': 'd_discover', 'C12': 'd_discover', 'C13': 'd_discover',
           'C14': 'd_checks', 'C15': 'd_checks', 'C16': 'd_checks', 'C17': 'd_checks',
           'C18': 'd_session', 'C19': 'd_history', 'C21': 'd_access', 'C22': 'd_threads',
           'C23': 'd_handlers'}


def main(argv):
    # code that never stops growing is told so (MemoryError) before the machine runs out
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    if argv[0] == 'trace':
        prop, tier, seed, shard, n, out = argv[1:]
        c = Ctx(prop, tier, int(seed), int(shard), int(n), out)
        m = importlib.import_module(MODULES[prop])
        getattr(m, prop)(c)
        c.out.close()
    elif argv[0] == 'replay':
        kind, f, tier, seed = argv[1:]
        mod, fn = kind.split('.')
        m = importlib.import_module(mod)
        n = 0
        bad = 0
        with open(f) as h:
            for line in h:
                if not line.strip():
                    continue
                n += 1
                for clause, what in getattr(m, fn)(json.loads(line)) or ():
                    bad += 1
                    if bad <= 50:
                        print(json.dumps({'clause': clause, 'what': what.encode('ascii', 'backslashreplace').decode()[:600],
                                          'event': json.loads(line)}))
        print(json.dumps({'replayed': n}))


if __name__ == '__main__':
    main(sys.argv[1:])
