import math
from fractions import Fraction

import numpy as np

import gens
from core import Facet, code, require

from mtoolkit.scientific.recurrence import recurrence_table

RULE = """1 to 40 events with magnitudes of one or two decimals (on the limits
of the bins, too), bin widths from 0.01 to 1 and years from -3000 to 2010; exact
counting on rational numbers as the oracle, and the same events in another
order; also with events that occur ten thousands of times. Non-trivial: three events or more in at least two bins."""
ASSUMPTIONS = ["additional empty bins above the largest magnitude are accepted",
               "a magnitude equal to the upper end of the last bin may count in it"]
WIDTHS = [0.1, 0.2, 0.25, 0.3, 0.5, 1.0, 0.05, 0.02, 0.01]


def case(d):
    end = d.choose([2010, 0, d.int(-3000, 2010)])
    span = d.choose([0, 1, 10, 100, 1000]) if d.scale <= 25 else d.int(0, 9000)
    return {'events': gens.whole(d.part(1), d.list(1, 40, 16, lambda q: [
        end - q.int(0, span), q.choose([q.int(0, 95) / 10, q.int(30, 75) / 10, q.int(30, 75) / 10,
                                        q.int(300, 750) / 100, q.int(300, 750) / 100,
                                        q.int(-25, 30) / 10, q.int(-250, 30) / 100])]), 1),
        'width': d.choose(WIDTHS), 'keys': [d.byte() for _ in range(40)]}


def multitude(d):
    """Events that are there very often."""
    c = case(d)
    c['events'] = c['events'][:8]
    c['times'] = [q.choose([1, 300, 33000, 70000, q.int(1, 40000)])
                  for q in [d.part(5) for _ in c['events']]]
    return c


def call(c, events):
    if 'times' in c:
        times = dict((tuple(e), 0) for e in events)
        for e, n in zip(c['events'], c['times']):
            times[tuple(e)] += n
        events = list(dict.fromkeys(map(tuple, events)))
        events = np.repeat(events, [times[e] for e in events], axis=0)
    events = np.array(events, dtype=float)
    year, mag = gens.array(events[:, 0]), gens.array(events[:, 1])
    with code('recurrence_table'):
        return np.asarray(recurrence_table(mag, c['width'], year))


def check(c):
    events, width = c['events'], Fraction(str(c['width']))
    got = call(c, events)
    require(got.ndim == 2 and got.shape[1] == 5 and len(got), 'shape %s', got.shape)
    mags = [Fraction(str(m)) for y, m in events]
    low = Fraction(math.floor(10 * min(mags)), 10)
    years = max(y for y, m in events) - min(y for y, m in events) + 1
    n = len(got)
    require(low + n * width >= max(mags), '%d bins from %s do not cover %s', n,
            float(low), float(max(mags)))
    counts = []
    for k in range(n):
        a, b = low + k * width, low + (k + 1) * width
        counts.append(sum(t for m, t in zip(mags, c.get('times') or [1] * len(mags))
                          if a <= m < b or (k == n - 1 and m == b)))
    for k, row in enumerate(got):
        what = 'bin from %s' % float(low + k * width)
        require(abs(row[0] - float(low + k * width + width / 2)) <= 2e-6,
                '%s has the central magnitude %r', what, row[0])
        require(row[1] == counts[k], '%s: %r events instead of %d', what, row[1],
                counts[k])
        above = sum(counts[k:])
        require(row[2] == above, '%s: %r cumulated instead of %d', what, row[2], above)
        for v, w, name in ((row[3], counts[k], 'rate'), (row[4], above, 'cumulated rate')):
            require(abs(v - w / float(years)) <= 1e-12 * max(w, 1),
                    '%s: %s %r instead of %r', what, name, v, w / float(years))
    order = sorted(range(len(events)), key=lambda i: (c['keys'][i % len(c['keys'])], i))
    require(np.array_equal(got, call(c, [events[i] for i in order])),
            'another order gives another table')
    used = sum(1 for x in counts if x)
    return {'nontrivial': len(events) > 2 and used > 1, 'one bin': used == 1,
            'on a limit': any((m - low) % width == 0 for m in mags),
            'one year': years == 1, 'negative': min(mags) < 0}


FACETS = [Facet('table', lambda: gens.decoded(40 * 16 + 61, case), check, quick=1000,
                thorough=30000),
          Facet('multitude', lambda: gens.decoded(40 * 16 + 61 + 50, multitude), check,
                quick=16, thorough=400),
          Facet('large', lambda: gens.large(case, 25), check, quick=60, thorough=400),
          Facet('larger', lambda: gens.large(case, 250), check, quick=24, thorough=200)]
