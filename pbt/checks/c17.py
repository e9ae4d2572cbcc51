import bisect
import math

import numpy as np

import gens
from core import Discard, Facet, code, require

from mtoolkit.scientific.completeness import stepp_analysis

RULE = """Catalogues of 1 to 60 events over up to 150 years in any order, with
empty classes, empty years and single years, for ten magnitude windows, several
time windows, tolerances and both lock settings; the oracle is a plain-Python
Stepp analysis. Non-trivial: at least one class with a departure."""
ASSUMPTIONS = ["the standard deviation of a rate without events is taken as 1e-14",
               "a class that begins with the largest magnitude, rounded up to 0.1, is accepted "
               "but not required",
               "cases with a change of slope within 1e-9 of the tolerance are left out"]


DEFAULTS = [0.1, 1, 0.2, True]


def magnitude(d):
    return round(d.choose([d.int(25, 85)] * 4 + [d.int(-20, 95)]) / 10 + d.choose([0, 0, 0, d.int(0, 9) / 100])
                 + d.choose([0, 0, 0, 0.003, -0.004]), 3)


def case(d):
    end = d.choose([2010, 1990, 100, d.int(-5000, 2012)])
    span = d.choose([0, 2, 5, 10, 20, 20, 40, 40, 60, 120])
    if d.scale > 12:
        span = d.int(0, 1500)
    recent = d.bool()                      # events more frequent lately
    events = d.list(1, 60, 12, lambda q: [
        end - int(span * (q.float(0, 1) ** (2 if recent else 1)) + 0.5),
        q.choose([magnitude(q)] * 3 + [4.1, 5.0])])
    if d.chance(1, 8):
        events = [[y, events[0][1]] for y, m in events]
    if d.chance(1, 2):
        events[-1][0] = end
    years = [y for y, m in events]
    length = max(years) - min(years) + 1
    c = {'events': events,
         'dm': d.choose([0.1, 0.2, 0.3, 0.4, 0.5, 1.0, 0.25, 0.15, 2.0, 0.05 if d.scale == 1 else 0.2]),
         'dt': min(length, d.choose([1, 1, 1, 2, 2, 3, 5, 5, 10, 2.5, 0.5])),
         'tolerance': d.choose([0.2, 0.1, 0.05, 0.5, 1.0, 0.01, 3.0]),
         'lock': d.bool(), 'keys': [d.byte() for _ in range(60)]}
    if d.chance(1, 4):
        # the last ones at their defaults
        for k, v in list(zip(('dm', 'dt', 'tolerance', 'lock'), DEFAULTS))[d.below(4):]:
            c[k] = v
    return c


def same_magnitude(events):
    return len(set(round(m * 100) for y, m in events)) == 1


def reference(c, more):
    """The table, whether there was a departure; more: with one more class."""
    events = [(y, int(math.floor(100 * m + 0.5))) for y, m in c['events']]
    dm = int(round(100 * c['dm']))
    low = min(m for y, m in events) // 10 * 10
    high = -(-max(m for y, m in events) // 10) * 10
    lower = [low]
    while lower[-1] + dm < high:
        lower.append(lower[-1] + dm)
    if more:
        lower.append(lower[-1] + dm)
    end = max(y for y, m in events)
    start = min(y for y, m in events)
    times = []
    while c['dt'] * (len(times) + 1) < end - start + 2:
        times.append(c['dt'] * (len(times) + 1))
    at, found = [], False
    for k, bound in enumerate(lower):
        top = lower[k + 1] if k + 1 < len(lower) else float('inf')
        sigma = []
        years = sorted(y for y, m in events if bound <= m < top)
        for t in times:
            n = len(years) - bisect.bisect_left(years, end - t)
            sigma.append(max(math.sqrt(n) / t, 1e-14))
        slopes = [(math.log10(sigma[i + 1]) - math.log10(sigma[i]))
                  / (math.log10(times[i + 1]) - math.log10(times[i])) + 0.5
                  for i in range(len(times) - 1)]
        changes = [abs(b - a) for a, b in zip(slopes, slopes[1:])]
        if any(abs(x - c['tolerance']) < 1e-9 for x in changes):
            raise Discard()
        last = [i for i, x in enumerate(changes) if x > c['tolerance']]
        if last:
            found = True
            here = last[-1]
            if at and c['lock']:
                here = max(here, at[-1])
        else:
            here = at[-1] if at else 0
        at.append(here)
    return [(end - times[i], b / 100.0) for i, b in zip(at, lower)], found


def call(c, events):
    year = gens.array([y for y, m in events])
    mw = gens.array([m for y, m in events])
    with code('stepp_analysis'):
        return np.asarray(stepp_analysis(year, mw, *gens.shortened(
            [c['dm'], c['dt'], c['tolerance'], c['lock']], DEFAULTS)))


def check(c):
    got = call(c, c['events'])
    require(got.ndim == 2 and got.shape[1] == 2, 'shape %s', got.shape)
    want, found = reference(c, False)
    if len(got) == len(want) + 1:
        want, found = reference(c, True)
    require(len(got) == len(want), '%d rows instead of %d', len(got), len(want))
    for row, (year, lower) in zip(got, want):
        require(abs(row[1] - lower) <= 1e-6, 'class from %r begins at %r', lower,
                row[1])
        require(abs(row[0] - year) <= 1e-6, 'class from %r is complete from %r, not %r',
                lower, row[0], year)
    if c['lock']:
        require(all(a >= b for a, b in zip(got[:, 0], got[1:, 0])),
                'periods get shorter: %s', list(got[:, 0]))
    n = len(c['events'])
    order = sorted(range(n), key=lambda i: (c['keys'][i % len(c['keys'])], i))
    other = call(c, [c['events'][i] for i in order])
    require(np.array_equal(got, other), 'another order of the events gives another table')
    return {'nontrivial': found, 'classes over 5': len(want) > 5,
            'one class': len(want) == 1, 'lock': c['lock'],
            'one magnitude': same_magnitude(c['events']),
            'differing periods': len(set(y for y, m in want)) > 1}


FACETS = [Facet('table', lambda: gens.decoded(60 * 12 + 124, case), check,
                quick=600, thorough=15000),
          Facet('large', lambda: gens.large(case, 12), check, quick=48, thorough=300),
          Facet('larger', lambda: gens.large(case, 120), check, quick=20, thorough=150)]
