import numpy as np

import decl
import gens
from core import Facet, require

RULE = """Catalogues of 1 to 120 events, dense and with many equal magnitudes,
either algorithm and any option; the oracle is the definition of the three
results in terms of each other. Non-trivial: at least one cluster. Also
catalogues of up to 3000 events, copies of a small one far apart."""
ASSUMPTIONS = ["a fore- or aftershock on the day of the mainshock counts as aftershock"]
MOST = 120


def case(d):
    algorithm = d.choose(['Gardner-Knopoff', 'Afteran'])
    c = decl.catalogue(d, algorithm, distinct=d.chance(1, 3), most=MOST)
    c['algorithm'] = algorithm
    return c


def tiled(d):
    algorithm = d.choose(['Gardner-Knopoff', 'Afteran'])
    return dict(decl.tiled(d, algorithm), algorithm=algorithm)


def check(c):
    if 'times' in c:
        c = dict(c, events=decl.expanded(c)[0])
    events = c['events']
    vcl, main, flag = decl.run(c['algorithm'], c)
    require(set(flag) <= {-1, 0, 1}, 'flags %s', sorted(set(flag)))
    numbers = sorted(set(vcl) - {0})
    require(numbers == list(range(1, len(numbers) + 1)), 'cluster numbers %s', numbers)
    for i, v in enumerate(vcl):
        require(v or not flag[i], 'event %d outside clusters has flag %s', i, flag[i])
    inside = {}
    for i, v in enumerate(vcl):
        inside.setdefault(v, []).append(i)
    for v in numbers:
        members = inside[v]
        require(len(members) > 1, 'cluster %d has the one event %s', v, members)
        kept = [i for i in members if not flag[i]]
        require(len(kept) == 1, 'of cluster %s the events %s are kept', members, kept)
        k = kept[0]
        require(events[k][5] == max(events[i][5] for i in members),
                'of cluster %s event %d is kept, which is not a largest', members, k)
        for i in members:
            if i != k:
                dt = decl.time(events[i]) - decl.time(events[k])
                want = -1 if dt < -1e-6 else 1
                require(flag[i] == want, 'event %d, %r years after its mainshock '
                        '%d, has flag %d', i, dt, k, flag[i])
    want = np.array([e for e, f in zip(events, flag) if not f], dtype=float)
    require(main.shape == want.shape and np.array_equal(main, want),
            'the declustered catalogue is not the %d rows flagged 0 in their order',
            len(want))
    top = max(e[5] for e in events)
    require(top in main[:, 5], 'the largest event was removed')
    return {'nontrivial': bool(numbers), 'several clusters': len(numbers) > 1,
            'foreshocks': -1 in flag, 'events over 50': len(events) > 50,
            c['algorithm']: True}


FACETS = [Facet('structure', lambda: gens.decoded(60 + decl.EVENT * MOST, case),
                check, quick=700, thorough=20000),
          Facet('large', lambda: gens.large(case, 4), check, quick=48, thorough=300),
          Facet('tiled', lambda: gens.large(tiled, 1), check, quick=50, thorough=300)]
