import math

import numpy as np

import gens
from core import Discard, Facet, code, known_finding, require

from mtoolkit.scientific.maximum_magnitude import (exp_spaced_points,
                                                   gauss_cdf_hastings,
                                                   h_smooth,
                                                   kijko_npg_intfunc_simps)

RULE = """Magnitude samples of 2 to 60 values (smoothing factor), arrays of 1 to
20 variates with any mean and deviation out to 40 deviations (distribution
function), bounds and numbers of points (sampling), and samples with kernel
widths and exponents (integral); plain formulas and math.erf are the oracle.
Non-trivial: more than two different magnitudes or variates."""
ASSUMPTIONS = ["the quartiles are those of scipy's mquantiles, the standard deviation that of "
               "the sample itself", "distribution function to 3e-4, the accuracy of Hastings' "
               "approximation", "the integral uses the distribution function of the code"]


# ---- smoothing factor -----------------------------------------------------------

def sample(d):
    b = d.choose([1.0, 0.5])
    digits = d.choose([1, 1, 2])
    low = d.choose([4.0, 4.0, 0.0, -1.5])
    usual = d.choose([None, None, None, low + 0.5, low + 1])     # that of half the events or more
    return {'mag': d.list(2, 60, 10, lambda q: usual if usual and q.chance(5, 8) else round(
        low - math.log10(1 - q.float(0, 0.9999)) / b, digits)),
            'keys': [d.byte() for _ in range(60)]}


def quantile(x, p):
    n = len(x)
    at = n * p + 0.4 + 0.2 * p
    k = int(math.floor(min(max(at, 1), n - 1)))
    g = min(max(at - k, 0.0), 1.0)
    return (1 - g) * x[k - 1] + g * x[k]


def check_smooth(c):
    x = sorted(c['mag'])
    n = len(x)
    mean = sum(x) / n
    deviation = math.sqrt(sum((v - mean) ** 2 for v in x) / n)
    spread = (quantile(x, 0.75) - quantile(x, 0.25)) / 1.34
    h = 0.9 * min(deviation, spread) * n ** -0.2
    if abs(100 * h % 1 - 0.5) < 1e-6:
        raise Discard()
    want = math.floor(100 * h + 0.5) / 100.0
    a = gens.array(c['mag'])
    with code('h_smooth'):
        got = h_smooth(a)
    require(abs(got - want) <= 1e-9, 'smoothing factor %r instead of %r (%r)', got, want, h)
    order = sorted(range(n), key=lambda i: (c['keys'][i % len(c['keys'])], i))
    with code('h_smooth'):
        other = h_smooth(a[order])
    require(abs(other - got) <= 1e-9, 'another order gives %r, not %r', other, got)
    return {'nontrivial': len(set(x)) > 2, 'deviation is smaller': deviation < spread,
            'zero': want == 0, 'zero range': spread == 0 and deviation > 0}


# ---- distribution function --------------------------------------------------------

def variates(d):
    mean = d.choose([0.0, d.float(-10, 10)])
    deviation = d.choose([1.0, 0.1, d.float(0.01, 5)])

    def x(q):
        u = q.choose([0.0, q.float(-5, 5), q.float(-5, 5), q.float(-40, 40), 4.99, 5.01,
                      -4.99, -5.01, q.float(-0.1, 0.1)])
        return mean + u * deviation
    return {'x': d.list(1, 20, 32, x), 'mean': mean, 'deviation': deviation,
            'plain': mean == 0 and deviation == 1 and d.bool()}


def known_formula(u):
    """With the sign of the second coefficient wrong, and 1 for u < -5."""
    a = abs(u)
    if a > 5:
        return 1.0
    v = 1 - 0.5 * (1 + 0.196854 * a - 0.115194 * a ** 2 + 0.000344 * a ** 3
                   + 0.019527 * a ** 4) ** -4
    return 1 - v if u < 0 else v


def check_cdf(c):
    x = gens.array(c['x'])
    with code('gauss_cdf_hastings'):
        got = gauss_cdf_hastings(x) if c['plain'] else \
            gauss_cdf_hastings(x, c['mean'], c['deviation'])
    got = np.asarray(got)
    require(got.shape == x.shape and np.array_equal(x, np.array(c['x'])),
            'shape %s, or the variates were changed', got.shape)
    units = [(v - c['mean']) / c['deviation'] for v in c['x']]
    for u, g in zip(units, got):
        if abs(abs(u) - 5) < 1e-9:
            continue
        want = 0.5 * math.erfc(-u / math.sqrt(2))
        if not abs(g - want) <= 3e-4:
            key = 'lower-tail' if u < -5 else 'coefficient'
            require(abs(g - known_formula(u)) <= 1e-9 and known_finding(key, g),
                    'distribution function at %r deviations is %r, not %r', u, g, want)
    pairs = sorted(zip(units, [float(g) for g in got]))
    for a, b in zip(pairs, pairs[1:]):
        require(a[1] <= b[1] + 1e-12 or (a[0] < -5 and known_finding('lower-tail', a)),
                'decreases between %s and %s', a, b)
    return {'nontrivial': len(set(units)) > 2, 'tail': max(map(abs, units)) > 5}


# ---- sampling points ----------------------------------------------------------------

def bounds(d):
    low = d.choose([d.rounded(0, 8, 1), d.float(-1, 8)])
    return {'low': low, 'high': low + d.choose([0.0, 0.1, 1.0, d.float(0.01, 6)]),
            'number': d.choose([51, 2, 3, d.int(2, 120), d.int(2, 1000)]), 'float': d.bool()}


def check_points(c):
    n = c['number']
    with code('exp_spaced_points'):
        got = np.asarray(exp_spaced_points(c['low'], c['high'],
                                           float(n) if c['float'] else n))
    require(got.shape == (n,), 'shape %s for %d points', got.shape, n)
    a, b = math.exp(c['low']), math.exp(c['high'])
    for k in range(n):
        want = math.log(a + (b - a) * k / (n - 1.0))
        require(abs(got[k] - want) <= 1e-9, 'point %d is %r, not %r', k, got[k], want)
    return {'nontrivial': c['high'] > c['low'] and n > 2}


# ---- integral ---------------------------------------------------------------------

def integral(d):
    down = d.choose([4.0, 4.0, 4.0, -1.5])
    mag = d.list(2, 30, 8, lambda q: round(down - math.log10(1 - q.float(0, 0.999)), 1))
    low = round(min(mag) + d.choose([0.0, 0.0, -0.2, 0.3, -2.0]), 2)
    return {'mag': mag, 'low': low, 'high': max(max(mag), low) + d.choose([0.0, 0.1, 0.5]),
            'number': d.choose([51, 11, 2, 3, d.int(2, 60), d.int(60, 300)]),
            'h': d.choose([0.1, 0.05, 0.2, 0.5, d.rounded(0.02, 1, 2)]),
            'n': float(d.choose([len(mag), d.int(1, 100)]))}


def check_integral(c):
    if not c['high'] > c['low']:
        raise Discard()
    mag = gens.array(c['mag'])
    points = [math.log(math.exp(c['low']) + (math.exp(c['high']) - math.exp(c['low']))
                       * k / (c['number'] - 1.0)) for k in range(c['number'])]
    points[0], points[-1] = c['low'], c['high']

    def total(m):
        with code('gauss_cdf_hastings'):
            return float(np.sum(gauss_cdf_hastings((m - mag) / c['h'])))
    bottom, top = total(points[0]), total(points[-1])
    if abs(top - bottom) < 1e-6:
        raise Discard()
    try:
        f = [((total(m) - bottom) / (top - bottom)) ** c['n'] for m in points]
    except OverflowError:
        raise Discard()
    scale = sum(abs(v) for v in f)
    want = sum((b - a) * (u + v) / 2 for a, b, u, v
               in zip(points, points[1:], f, f[1:]))
    if not math.isfinite(scale):
        raise Discard()
    with code('kijko_npg_intfunc_simps'):
        got = kijko_npg_intfunc_simps(np.array(points), mag, c['h'], c['n'])
    require(abs(got - want) <= 1e-7 * (scale + 1e-9), 'integral %r instead of %r', got, want)
    return {'nontrivial': len(set(c['mag'])) > 2 and c['number'] > 2,
            'two points': c['number'] == 2}


FACETS = [
    Facet('smoothing', lambda: gens.decoded(60 * 11 + 14, sample), check_smooth, quick=500,
          thorough=15000),
    Facet('distribution', lambda: gens.decoded(20 * 32 + 40, variates), check_cdf, quick=500,
          thorough=20000),
    Facet('points', lambda: gens.decoded(40, bounds), check_points, quick=300,
          thorough=10000),
    Facet('integral', lambda: gens.decoded(30 * 8 + 32, integral), check_integral,
          quick=250, thorough=6000),
          Facet('large sample', lambda: gens.large(sample, 25), check_smooth, quick=80, thorough=500),
          Facet('large variates', lambda: gens.large(variates, 60), check_cdf, quick=80,
          thorough=500),
          Facet('large integral', lambda: gens.large(integral, 12), check_integral, quick=40,
          thorough=300),
          Facet('larger sample', lambda: gens.large(sample, 200), check_smooth, quick=30, thorough=200),
          Facet('larger variates', lambda: gens.large(variates, 600), check_cdf, quick=20, thorough=200),
          Facet('larger integral', lambda: gens.large(integral, 80), check_integral, quick=12, thorough=100)]
