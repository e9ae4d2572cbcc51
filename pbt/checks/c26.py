import math

import numpy as np

import gens
from core import Discard, Facet, code, require

from mtoolkit.scientific.maximum_magnitude import (gauss_cdf_hastings, h_smooth,
                                                   kijko_nonparametric_gauss)

RULE = """Catalogues of 2 to 60 events with ties, numbers of largest events
below and above their number, several numbers of samples, tolerances and
iteration limits (also so low that they stop the iteration), with and without a
given observed maximum, and in another order; the oracle iterates the equation
with its own integration. Non-trivial: the estimate is above the observed
maximum and the sample has three different magnitudes."""
ASSUMPTIONS = ["smoothing factor and distribution function are those of the code (C25)",
               "tolerance 1e-6", "cases in which a point is five deviations "
               "from a magnitude, where the distribution function is cut off, are left out",
               "samples with smoothing factor 0 have no estimate and are "
               "left out", "among equally large events the error of any may be taken"]


def case(d):
    b = d.choose([1.0, 0.6])
    digits = d.choose([1, 1, 2])
    low = d.choose([4.0, 4.0, 4.0, 2.5, 0.5, -1.0])
    events = d.list(2, 60, 10, lambda q: [
        round(low - math.log10(1 - q.float(0, 0.9999)) / b, digits),
        q.choose([0.0, 0.1, 0.25, 0.5])])
    events = gens.whole(d.part(1), events, 0)
    top = max(m for m, s in events)
    return {'events': events, 'neq': d.choose([100, 100, 10, 5, 3, len(events), 2]),
            'samples': d.choose([11, 21, 51, 5]),
            'tolerance': d.choose([1e-5, 1e-3, 1e-2, 0.1, 1e-4]),
            'iterations': d.choose([60, 60, 60, 3, 1, 10]),
            'observed': [round(top + d.choose([0.0, 0.1, 0.7]), 2),
                         d.choose([0.0, 0.2])] if d.chance(1, 3) else None,
            'keys': [d.byte() for _ in range(60)]}


def integral(points, mag, h, n):
    """The trapezoidal sum over all points at once."""
    x = (np.repeat(points, len(mag)) - np.tile(mag, len(points))) / h
    if np.any(abs(abs(x) - 5) < 1e-9):      # the function is cut off there
        raise Discard()
    with code('gauss_cdf_hastings'):
        p = np.asarray(gauss_cdf_hastings(x)).reshape(len(points), len(mag)).sum(axis=1)
    if abs(p[-1] - p[0]) < 1e-9:
        raise Discard()
    f = ((p - p[0]) / (p[-1] - p[0])) ** n
    return float(np.sum((f[1:] + f[:-1]) / 2 * np.diff(points)))


def reference(c):
    mags = sorted(m for m, s in c['events'])
    top, errors = mags[-1], [s for m, s in c['events'] if m == mags[-1]]
    if c['observed']:
        top, errors = c['observed'][0], [c['observed'][1]]
    mags = np.array(mags[-c['neq']:])
    with code('h_smooth'):
        h = float(h_smooth(mags))
    if not h > 0 or not top > mags[0]:
        raise Discard()
    estimate, j = top, 0
    while True:
        a, b = math.exp(mags[0]), math.exp(estimate)
        points = np.log(a + (b - a) * np.arange(c['samples']) / (c['samples'] - 1.0))
        delta = integral(points, mags, h, float(len(mags)))
        change = abs(top + delta - estimate)
        estimate = top + delta
        j += 1
        if not math.isfinite(estimate) or estimate > 50:
            raise Discard()
        if abs(change - c['tolerance']) < 1e-8:
            raise Discard()
        if change <= c['tolerance'] or j > c['iterations']:
            return estimate, [math.hypot(s, delta) for s in errors], top, j


def call(c, events):
    m, s = gens.array([m for m, s in events]), gens.array([s for m, s in events])
    before = m.copy(), s.copy()
    with code('kijko_nonparametric_gauss'):
        v = kijko_nonparametric_gauss(
            m, s, c['neq'], c['samples'], c['tolerance'], c['iterations'],
            tuple(c['observed']) if c['observed'] else False)
    require(np.array_equal(m, before[0]) and np.array_equal(s, before[1]),
            'the arguments were modified')
    return float(v[0]), float(v[1])


def check(c):
    estimate, errors, top, steps = reference(c)
    got, error = call(c, c['events'])
    require(abs(got - estimate) <= 1e-6, 'maximum magnitude %r instead of %r', got, estimate)
    require(any(abs(error - e) <= 1e-6 for e in errors), 'error %r instead of %r', error,
            errors)
    require(got >= top - 1e-12, 'estimate %r below the observed maximum %r', got, top)
    order = sorted(range(len(c['events'])), key=lambda i: (c['keys'][i % len(c['keys'])], i))
    other = call(c, [c['events'][i] for i in order])
    require(abs(other[0] - got) <= 1e-9, 'another order gives %r, not %r', other[0], got)
    require(any(abs(other[1] - e) <= 1e-6 for e in errors),
            'another order gives the error %r instead of %r', other[1], errors)
    return {'nontrivial': got > top and len(set(m for m, s in c['events'])) > 2,
            'fewer events used': c['neq'] < len(c['events']),
            'observed given': bool(c['observed']),
            'limit reached': steps > c['iterations'],
            'steps over 5': steps > 5}


FACETS = [Facet('estimate', lambda: gens.decoded(60 * 10 + 91, case), check, quick=220,
                thorough=5000),
          Facet('large', lambda: gens.large(case, 8), check, quick=32, thorough=200),
          Facet('larger', lambda: gens.large(case, 100), check, quick=12, thorough=80)]
