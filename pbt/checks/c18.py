import math

import numpy as np

import gens
from core import Facet, code, require

from mtoolkit.scientific.completeness import selected_eq_flag_vector

RULE = """1 to 30 events with flags -1, 0 and 1 and completeness tables of 1 to
8 rows in any order (also with repeated years and magnitudes and periods that
get shorter for larger magnitudes, and years that are not whole), event years and magnitudes taken from the
table or just beside it half of the time; the oracle is the definition. Non-
trivial: events both selected and not."""
ASSUMPTIONS = []


def case(d):
    years = [2000, 1950, 1900, 1800, -200]
    table = d.list(1, 8, 24, lambda q: [
        q.choose([q.choose(years), q.int(1700, 2010)]) + q.choose([0, 0, 0, 0.5, 0.25]),
        q.choose([5.0, q.grid(3, 8, 10), q.rounded(3, 8, 2)])])
    if d.chance(1, 3):
        table = sorted(table, key=lambda r: (-r[0], r[1]))

    def event(q):
        row = q.choose(table)
        y = q.choose([int(math.floor(row[0])), int(math.ceil(row[0])) - 1,
                      int(math.floor(row[0])) + 1, q.int(1600, 2012)])
        row = q.choose([row, q.choose(table)])
        m = q.choose([row[1], round(row[1] - 0.01, 2), round(row[1] + 0.01, 2),
                      math.nextafter(row[1], -9), row[1] - q.choose([1e-4, 1e-6, 1e-9]),
                      q.rounded(2, 9, 1)])
        return [y, m, q.choose([0, 0, 0, 1, -1])]
    return {'table': table, 'events': d.list(1, 30, 24, event),
            'keys': [d.byte() for _ in range(8)], 'float flags': d.bool()}


def call(c, table):
    e = gens.array(c['events'])
    t = gens.array(table)
    flags = e[:, 2] if c['float flags'] else e[:, 2].astype(int)
    before = e.copy(), t.copy(), flags.copy()
    with code('selected_eq_flag_vector'):
        v = np.asarray(selected_eq_flag_vector(e[:, 0], e[:, 1], t[:, 0], t[:, 1],
                                               flags))
    require(all(np.array_equal(a, b) for a, b in zip(before, (e, t, flags))),
            'arguments were modified')
    require(v.shape == (len(e),), 'shape %s for %d events', v.shape, len(e))
    return [bool(x) for x in v]


def check(c):
    table = c['table']
    got = call(c, table)
    want = [f != 0 or any(y < r[0] and m < r[1] for r in table)
            for y, m, f in c['events']]
    for e, g, w in zip(c['events'], got, want):
        require(g == w, 'event %s is %s, table %s', e,
                'not selected' if g else 'selected', table)
    order = sorted(range(len(table)), key=lambda i: (c['keys'][i % len(c['keys'])], i))
    require(call(c, [table[i] for i in order]) == got,
            'another order of the table changes the selection')
    limit = any(y == r[0] or m == r[1] for y, m, f in c['events'] for r in table)
    return {'nontrivial': len(set(got)) > 1, 'on a limit': limit,
            'within a year': any(r[0] % 1 and y == math.floor(r[0]) for y, m, f in c['events']
                                 for r in table),
            'incomplete': any(w and not e[2] for w, e in zip(want, c['events'])),
            'declustered': any(e[2] for e in c['events']),
            'rows over 3': len(table) > 3}


FACETS = [Facet('selection', lambda: gens.decoded(8 * 24 + 30 * 24 + 20, case),
                check, quick=1500, thorough=50000),
          Facet('large', lambda: gens.large(case, 25), check, quick=100, thorough=600),
          Facet('larger', lambda: gens.large(case, 300), check, quick=24, thorough=200)]
