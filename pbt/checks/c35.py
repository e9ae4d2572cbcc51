import math

import gens
from core import Facet, code, raises, require

from mtoolkit.geo.simple_fault import SimpleFaultGeo

RULE = """Traces of 0 to 8 points (tuples or lists), of any kind: close together,
repeated, across the poles, along a meridian or the equator, antipodal, at and
just beyond the limits of the coordinates, depths and dips at, just inside and
just beyond their limits. The oracle measures lengths with the angle between
position vectors. Non-trivial: every case."""
ASSUMPTIONS = ["a sphere of 6371 km; lengths agree to 1e-9 of their value and to 1 m "
               "for antipodal points"]

LON = [-180.0, 180.0, 0.0, 179.999, -179.999]
LAT = [-90.0, 90.0, 0.0, 89.999, -89.999]
BAD_LON = [180.0000001, -180.0000001, 360.0, 1e9, -200.0, float('inf')]
BAD_LAT = [90.0000001, -90.0000001, 180.0, -1e9, 100.0, float('-inf')]


def trace(d, n):
    how = d.choose(['any', 'close', 'close', 'edge', 'meridian', 'equator'])
    lon, lat = d.float(-170, 170), d.float(-80, 80)
    out = []
    for _ in range(n):
        q = d.part(20)
        kind = q.below(8)
        if out and kind == 0:
            out.append(list(q.choose(out)))
        elif out and kind == 1:
            x, y = out[-1]
            out.append([x - 180.0 if x > 0 else x + 180.0, -y])
        elif how == 'any':
            out.append([q.float(-180, 180), q.float(-90, 90)])
        elif how == 'close':
            s = q.choose([1.0, 0.1, 1e-3, 1e-6])
            out.append([lon + q.float(-s, s), lat + q.float(-s, s)])
        elif how == 'edge':
            out.append([q.choose(LON), q.choose(LAT)])
        elif how == 'meridian':
            out.append([lon, q.float(-90, 90)])
        else:
            out.append([q.float(-180, 180), 0.0])
    return out


def case(d):
    n = d.choose([2, 3, 4, 5, 6, 8, 2, 3, 1, 0]) if d.scale == 1 else d.int(0, 8 * d.scale)
    c = {'trace': trace(d.part(220), n)}
    upper = d.choose([0.0, 0, 5.0, 1e-9, d.rounded(0, 30, 2), d.float(0, 100)])
    c['upper'] = upper
    c['lower'] = upper + d.choose([1.0, 10, 1e-6, d.rounded(0.01, 50, 2), 1000.0])
    c['dip'] = d.choose([90, 90.0, 45, 30.0, 1e-3, d.float(0.1, 90), 89.999])
    wrong = d.choose([''] * (6 if d.scale == 1 else 24) + ['lon', 'lat', 'upper', 'lower', 'dip', 'nan'])
    if wrong in ('lon', 'lat') and n:
        i = d.below(n)
        c['trace'][i][wrong == 'lat'] = d.choose(BAD_LAT if wrong == 'lat' else BAD_LON)
    elif wrong == 'upper':
        c['upper'] = d.choose([-1e-9, -1, -10.0])
        c['lower'] = d.choose([5.0, 0.0, c['upper'] + 0.5])
    elif wrong == 'lower':
        c['lower'] = d.choose([c['upper'], c['upper'] - 1e-9, 0, -c['upper']])
    elif wrong == 'dip':
        c['dip'] = d.choose([0, 0.0, -1e-9, 90.0000001, 91, -45, 180, 135.0])
    elif wrong == 'nan':
        what = d.choose(['lon', 'lat', 'upper', 'lower', 'dip'])
        if what in ('lon', 'lat') and n:
            c['trace'][d.below(n)][what == 'lat'] = float('nan')
        elif what not in ('lon', 'lat'):
            c[what] = float('nan')
    c['tuples'] = d.bool()
    return c


def vector(p):
    x, y = math.radians(p[0]), math.radians(p[1])
    return (math.cos(y) * math.cos(x), math.cos(y) * math.sin(x), math.sin(y))


def distance(p, q):
    a, b = vector(p), vector(q)
    cross = (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
             a[0] * b[1] - a[1] * b[0])
    return 6371.0 * math.atan2(math.sqrt(sum(v * v for v in cross)),
                               sum(u * v for u, v in zip(a, b)))


def valid(c):
    return (len(c['trace']) >= 2
            and all(-180 <= x <= 180 and -90 <= y <= 90 for x, y in c['trace'])
            and c['upper'] >= 0 and c['lower'] > c['upper'] and 0 < c['dip'] <= 90)


def check(c):
    points = [tuple(p) if c['tuples'] else p for p in c['trace']]
    arguments = (points, c['upper'], c['lower'], c['dip'])
    if not valid(c):
        raises(ValueError, SimpleFaultGeo, *arguments)
        return {'nontrivial': True, 'refused': True}
    with code('SimpleFaultGeo'):
        fault = SimpleFaultGeo(*arguments)
        values = [fault.get_length(), fault.get_width(), fault.get_area()]
        again = [fault.get_area(), fault.get_width(), fault.get_length()][::-1]
        back = SimpleFaultGeo(points[::-1], *arguments[1:]).get_length()
    length, width, area = [float(v) for v in values]
    steps = [distance(p, q) for p, q in zip(points, points[1:])]
    far = sum(s > 20000 for s in steps)
    # positions agree to some 1e-16 of the radius
    close = 1e-9 * sum(steps) + 1e-8 + 1e-3 * far
    require(abs(length - sum(steps)) <= close, 'length %r instead of %r', length, sum(steps))
    require(abs(float(back) - length) <= close, 'length %r, reversed %r', length, back)
    want = (c['lower'] - c['upper']) / math.sin(math.radians(c['dip']))
    require(abs(width - want) <= 1e-9 * want, 'width %r instead of %r', width, want)
    require(abs(area - length * width) <= 1e-9 * abs(area) + 1e-300,
            'area %r, length %r, width %r', area, length, width)
    require([float(v) for v in again] == [length, width, area], 'other values when repeated')
    return {'nontrivial': True, 'points=%s' % (len(points) if len(points) < 9 else 'more'): True,
            'antipodal': far > 0, 'vertical': c['dip'] == 90, 'surface': c['upper'] == 0,
            'no length': sum(steps) == 0}


FACETS = [Facet('fault', lambda: gens.decoded(300, case), check, quick=4000,
                thorough=100000),
          Facet('large', lambda: gens.large(case, 50), check, quick=120, thorough=1500),
          Facet('larger', lambda: gens.large(case, 500), check, quick=40, thorough=400)]
