import math

import numpy as np

import gens
from core import Discard, Facet, code, require

from mtoolkit.scientific.maximum_magnitude import cumulative_moment

RULE = """Catalogues of 2 to 40 events in any order, with gaps of many years,
several events a year, negative years and very different magnitudes, each also
with all magnitudes raised, all years moved and the events in another order; the
cumulated moments in plain Python are the oracle. Non-trivial: three events or
more with a year without events."""
ASSUMPTIONS = ["tolerance 1e-6", "constant release (deviations below 1e-6 of the total moment) "
               "has no estimate and is left out"]


def case(d):
    end = d.choose([2009, 10, d.int(-5000, 2009)])
    span = d.choose([1, 3, 20, 100, 300]) if d.scale <= 25 else d.int(1, 10000)
    down = d.choose([0, 0, 0, 0, 5, 6.5, 9, 12, -1])
    return {'events': gens.whole(d.part(1), d.list(2, 40, 12, lambda q: [
        end - q.int(0, span), round(q.choose([q.int(30, 85) / 10, q.rounded(4, 6, 2)])
                                    - down, 2)]), 1),
        'raise': d.choose([1.0, -0.5, d.float(-2, 2)]),
        'years': d.choose([1, -100, d.int(-3000, 3000)]),
        'keys': [d.byte() for _ in range(40)]}


def reference(events):
    first, last = min(y for y, m in events), max(y for y, m in events)
    release = dict.fromkeys(range(first, last + 1), 0.0)
    for y, m in events:
        release[y] += 10 ** (9.05 + 1.5 * m)
    total = math.fsum(release.values())
    average = total / len(release)
    sums, parts = [], []
    for y in range(first, last + 1):
        parts += [release[y], -average]
        sums.append(math.fsum(parts))
    spread = abs(max(sums)) + abs(min(sums))
    if spread < 1e-6 * total:
        raise Discard()
    return 2.0 / 3 * (math.log10(spread) - 9.05)


def call(events):
    year = gens.array([y for y, m in events])
    mag = gens.array([m for y, m in events])
    before = year.copy(), mag.copy()
    with code('cumulative_moment'):
        v = float(cumulative_moment(year, mag))
    require(np.array_equal(year, before[0]) and np.array_equal(mag, before[1]),
            'the arguments were modified')
    return v


def check(c):
    events = c['events']
    want = reference(events)
    got = call(events)
    require(abs(got - want) <= 1e-6, 'maximum magnitude %r instead of %r', got, want)
    up = call([[y, m + c['raise']] for y, m in events])
    require(abs(up - got - c['raise']) <= 1e-6, 'magnitudes raised by %r: %r and %r',
            c['raise'], got, up)
    moved = call([[y + c['years'], m] for y, m in events])
    require(abs(moved - got) <= 1e-6, 'years moved by %r: %r and %r', c['years'], got,
            moved)
    order = sorted(range(len(events)), key=lambda i: (c['keys'][i % len(c['keys'])], i))
    other = call([events[i] for i in order])
    require(abs(other - got) <= 1e-6, 'another order: %r and %r', got, other)
    years = set(y for y, m in events)
    gaps = max(years) - min(years) + 1 > len(years)
    return {'nontrivial': len(events) > 2 and gaps, 'gaps': gaps,
            'negative': min(m for y, m in events) < 0,
            'several a year': len(years) < len(events)}


FACETS = [Facet('estimate', lambda: gens.decoded(40 * 12 + 83, case), check, quick=800,
                thorough=20000),
          Facet('large', lambda: gens.large(case, 25), check, quick=60, thorough=400),
          Facet('larger', lambda: gens.large(case, 250), check, quick=24, thorough=200)]
