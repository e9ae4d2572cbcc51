import math

import numpy as np

import gens
from core import Facet, code, known_finding, require

from mtoolkit.scientific.declustering import time_dist_windows

RULE = """Arrays of 1 to 12 magnitudes between -3 (-0.03 for Gruenthal, whose
roots end there) and 10 in any order, with 6.5 and its floating-point neighbours and repeated values frequent, for one of the
three options, after a call with another array; the published relations are the
oracle. Non-trivial: magnitudes on both sides of 6.5 or the branch point."""
ASSUMPTIONS = ["relative tolerance 1e-9"]


def magnitude(d, low):
    return d.choose([6.5, float(np.nextafter(6.5, 0)), float(np.nextafter(6.5, 9)),
                     0.0, 10.0, 6.4, 6.6] + [d.rounded(0, 10, 1)] * 5
                    + [d.float(0, 10)] * 5 + [d.rounded(low, 0, 2)])


def case(d):
    option = d.choose(['GardnerKnopoff', 'Gruenthal', 'Uhrhammer'])
    # the roots of the Gruenthal relation end at -0.0358
    low = -0.03 if option == 'Gruenthal' else -3.0
    return {'option': option,
            'before': d.list(1, 6, 28, lambda q: magnitude(q, low)),
            'magnitudes': [m for m, in gens.whole(d.part(1), d.list(
                1, 12, 28, lambda q: [magnitude(q, low)]), 0)]}


def relation(option, m):
    if option == 'GardnerKnopoff':
        return (10 ** (0.1238 * m + 0.983),
                10 ** (0.5409 * m - 0.547 if m < 6.5 else 0.032 * m + 2.7389) / 365)
    if option == 'Gruenthal':
        return (math.exp(1.77 + math.sqrt(0.037 + 1.02 * m)),
                (math.exp(-3.95 + math.sqrt(0.62 + 17.32 * m)) if m < 6.5
                 else 10 ** (2.8 + 0.024 * m)) / 365)
    return math.exp(-1.024 + 0.804 * m), math.exp(-2.87 + 1.235 * m) / 365


def near(a, b):
    return abs(a - b) <= 1e-9 * abs(b)


def check(c):
    option = c['option']
    window = time_dist_windows[option]
    with code('calc'):
        window.calc(gens.array(c['before']))
        a = gens.array(c['magnitudes'])
        space, time = window.calc(a)
    require(list(a) == c['magnitudes'], 'the magnitudes were changed')
    require(np.shape(space) == np.shape(time) == (len(a),), 'shapes %s, %s',
            np.shape(space), np.shape(time))
    for m, s, t in zip(c['magnitudes'], space, time):
        want = relation(option, m)
        require(near(s, want[0]), '%s: space window of %r is %r, not %r',
                option, m, s, want[0])
        if not near(t, want[1]):
            listed = option == 'Uhrhammer' and \
                near(t, math.exp(-2.87 + 1.235 * m / 365)) and \
                known_finding('uhrhammer-time', t)
            require(listed, '%s: time window of %r is %r, not %r', option, m, t,
                    want[1])
    both = min(c['magnitudes']) < 6.5 <= max(c['magnitudes'])
    return {'nontrivial': both or 6.5 in c['magnitudes'], option: True,
            'negative': min(c['magnitudes']) < 0,
            'branch point': 6.5 in c['magnitudes']}


FACETS = [Facet('windows', lambda: gens.decoded(28 * 18 + 21, case),
                check, quick=1200, thorough=40000),
          Facet('large', lambda: gens.large(case, 60), check, quick=100, thorough=600)]
