import math

import numpy as np

import gens
from core import Facet, code, require

from mtoolkit.scientific.catalogue_utilities import haversine

RULE = """One to six points against one to four, in degrees or radians, with
several radii, among them equal, near and antipodal points, poles and both
sides of the 180 degree meridian; the oracle is the angle between vectors.
Non-trivial: more than one pair, or an antipodal, polar or meridian pair."""
ASSUMPTIONS = ["tolerance 1e-9 relative plus 1e-7 km, near antipodes "
               "1e-3 km (of 20000): the accuracy of the haversine formula"]


def point(d):
    k = d.below(8)
    if k == 0:
        return [d.choose([180.0, -180.0, 179.999, -179.999, 0.0]), d.rounded(-90, 90, 1)]
    if k == 1:
        return [d.rounded(-180, 180, 1), d.choose([90.0, -90.0, 0.0, 89.9999])]
    if k < 5:
        return [d.float(-180, 180), d.float(-90, 90)]
    return [float(d.int(-180, 180)), float(d.int(-90, 90))]


def relative(d, p):
    how = d.below(8)
    if how == 0:
        return list(p)
    if how == 1:
        return [p[0] - 180 if p[0] > 0 else p[0] + 180, -p[1]]
    if how == 2:
        return [p[0] + d.float(-1e-3, 1e-3), max(-90.0, min(90.0, p[1] + d.float(-1e-3, 1e-3)))]
    if how == 3:
        return [p[0] - 360 if p[0] > 0 else p[0] + 360, p[1]]
    if how == 4:
        return [p[0] + (180 if p[0] < 0 else -180) + d.float(-1e-2, 1e-2), -p[1]]
    return point(d)


def case(d):
    first = d.list(1, 6, 20, point)
    q = d if d.scale <= 100 else d.part(200, 1)         # not millions of pairs
    second = q.list(1, 4, 40, lambda q: relative(q, q.choose(first)))
    if d.chance(1, 6):                                  # whole degrees
        first = [[float(round(v)) for v in p] for p in first]
        second = [[float(round(v)) for v in p] for p in second]
    return {'first': first, 'second': second, 'radians': d.bool(),
            'radius': d.choose([None, None, 6371.0, 1.0, 6378.137]),
            'scalar': d.choose(['none', 'second', 'both']),
            'turn': d.float(-180, 180)}


def angle(p, q):
    def vec(p):
        x, y = math.radians(p[0]), math.radians(p[1])
        return (math.cos(y) * math.cos(x), math.cos(y) * math.sin(x), math.sin(y))
    # the longitude difference is reduced first, to keep it accurate
    dx = math.radians(math.remainder(p[0] - q[0], 360.0))
    a, b = math.radians(p[1]), math.radians(q[1])
    num = math.hypot(math.cos(b) * math.sin(dx),
                     math.cos(a) * math.sin(b)
                     - math.sin(a) * math.cos(b) * math.cos(dx))
    den = math.sin(a) * math.sin(b) + math.cos(a) * math.cos(b) * math.cos(dx)
    return math.atan2(num, den)


def tolerance(w, r):
    return 1e-9 * w * r + 1e-7 * r / 6371.0 + \
        (2e-7 * r if math.pi - w < 1e-3 else 0)


def call(c, first, second):
    f = gens.array(first)
    s = gens.array(second)
    if c['radians']:
        f, s = f * (math.pi / 180.0), s * (math.pi / 180.0)
    args = [f[:, 0], f[:, 1], s[:, 0], s[:, 1]]
    if c['scalar'] == 'both':
        args = [f[0, 0], f[0, 1], s[0, 0], s[0, 1]]
    elif c['scalar'] == 'second':
        args = [f[:, 0], f[:, 1], s[0, 0], s[0, 1]]
    kw = {'radians': True} if c['radians'] else {}
    if c['radius']:
        kw['earth_rad'] = c['radius']
    with code('haversine'):
        return np.asarray(haversine(*args, **kw))


def check(c):
    r = c['radius'] or 6371.227
    first, second = c['first'], c['second']
    if c['scalar'] != 'none':
        second = second[:1]
    if c['scalar'] == 'both':
        first = first[:1]
    got = call(c, first, second)
    require(got.shape == (len(first), len(second)), 'shape %s for %d and %d points',
            got.shape, len(first), len(second))
    special = False
    turned = call(c, [[p[0] + c['turn'], p[1]] for p in first],
                  [[p[0] + c['turn'], p[1]] for p in second])
    other = dict(c, scalar='none')
    back = call(other, second, first)
    around = call(c, [[p[0] + 360, p[1]] for p in first], second)
    for i, p in enumerate(first):
        for j, q in enumerate(second):
            w = angle(p, q)
            v = got[i, j]
            tol = tolerance(w, r) * (1.01 + (9 if c['radians'] else 0))
            special = special or w > 3.14 or abs(p[1]) == 90 or abs(p[0]) == 180
            require(np.isfinite(v), 'distance of %s and %s is %s', p, q, v)
            require(abs(v - w * r) <= tol, 'distance of %s and %s is %r, not %r',
                    p, q, v, w * r)
            require(v <= math.pi * r * (1 + 1e-12), 'more than half the circumference')
            if p == q:
                require(v == 0, 'distance %r of equal points', v)
            tol = 10 * tol + 1e-8 * r
            require(abs(back[j, i] - v) <= tol, 'not symmetric: %r, %r', v, back[j, i])
            require(abs(turned[i, j] - v) <= tol, 'turned by %r: %r, %r',
                    c['turn'], v, turned[i, j])
            require(abs(around[i, j] - v) <= tol, 'plus 360: %r, %r', v, around[i, j])
    return {'nontrivial': special or got.size > 1, 'special': special,
            'radians': c['radians'], 'matrix': min(got.shape) > 1}


FACETS = [Facet('distance', lambda: gens.decoded(320, case), check, quick=1200,
                thorough=40000),
          Facet('large', lambda: gens.large(case, 10), check, quick=48, thorough=300),
          Facet('larger', lambda: gens.large(case, 1500), check, quick=12, thorough=80)]
