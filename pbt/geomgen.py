"""Polygons on a grid (all coordinates are binary fractions), with exact
predicates on rational numbers."""

import math
from fractions import Fraction as F


def orient(a, b, c):
    v = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    return (v > 0) - (v < 0)


def on_segment(a, b, p):
    return (orient(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0])
            and min(a[1], b[1]) <= p[1] <= max(a[1], b[1]))


def exact(points):
    """The points in a unit such that all coordinates are integers."""
    ps = [(F(x), F(y)) for x, y in points]
    unit = max(v.denominator for p in ps for v in p)     # all powers of two
    return [(int(x * unit), int(y * unit)) for x, y in ps]


def apart(a, b, c, d):
    """Whether the boxes around two segments have no point in common."""
    return (max(a[0], b[0]) < min(c[0], d[0]) or max(c[0], d[0]) < min(a[0], b[0]) or
            max(a[1], b[1]) < min(c[1], d[1]) or max(c[1], d[1]) < min(a[1], b[1]))


def kind(polygon):
    """simple, crossing (a proper crossing of two edges) or degenerate."""
    n = len(polygon)
    if n < 3:
        return 'degenerate'
    ps = exact(polygon)
    if len(set(ps)) < n:
        return 'degenerate'
    result = 'simple'
    for i in range(n):
        a, b = ps[i], ps[(i + 1) % n]
        for j in range(i + 1, n):
            c, d = ps[j], ps[(j + 1) % n]
            if j == i + 1 or (i == 0 and j == n - 1):
                # neighbours share a vertex only
                far, near, other = (d, b, a) if j == i + 1 else (c, a, b)
                if on_segment(a, b, far) or on_segment(near, far, other):
                    return 'degenerate'
                continue
            if apart(a, b, c, d):
                continue
            o = [orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b)]
            if o[0] * o[1] < 0 and o[2] * o[3] < 0:
                result = 'crossing'
            elif any(on_segment(a, b, p) for p in (c, d)) or \
                    any(on_segment(c, d, p) for p in (a, b)):
                return 'degenerate'
    return result


def where(polygon, point):
    """in, out or on the boundary of a simple polygon."""
    ps = exact(list(polygon) + [point])
    p = ps.pop()
    inside = False
    for i in range(len(ps)):
        a, b = ps[i - 1], ps[i]
        if on_segment(a, b, p):
            return 'on'
        if (a[1] > p[1]) != (b[1] > p[1]):
            # the edge, upwards, has the point to its left
            if (orient(a, b, p) if b[1] > a[1] else orient(b, a, p)) > 0:
                inside = not inside
    return 'in' if inside else 'out'


def star(d, cx, cy, size, per=16):
    """A polygon around (cx, cy), most often simple and often concave."""
    n = d.int(3, 9)
    angles = sorted(d.below(360) for _ in range(n))
    out = []
    for k, a in enumerate(angles):
        r = size * d.choose([1.0, 0.8, 0.5, 0.25])
        x = round((cx + r * math.cos(math.radians(a))) * per) / per
        y = round((cy + r * math.sin(math.radians(a))) * per) / per
        out.append([max(-180.0, min(180.0, x)), max(-90.0, min(90.0, y))])
    return out


def ring(d, cx, cy, size, per=2.0 ** 20):
    """A boundary of a hundred vertices or more. Takes 8 bytes."""
    n, waves = d.int(90, 400), d.int(2, 40)
    depth = d.choose([0.0, 0.3, 0.01])
    out = []
    for k in range(n):
        a = 2 * math.pi * k / n
        r = size * (1 - depth * (1 + math.cos(waves * a)) / 2)
        x = round((cx + r * math.cos(a)) * per) / per
        y = round((cy + r * math.sin(a)) * per) / per
        out.append([max(-180.0, min(180.0, x)), max(-90.0, min(90.0, y))])
    return out


def variation(d, polygon, per=2):
    """The polygon with one or two vertices elsewhere, if that is still simple.
    Takes 8 bytes."""
    q = d.part(8)
    closed = len(polygon) > 1 and list(polygon[0]) == list(polygon[-1])
    out = [list(p) for p in (polygon[:-1] if closed else polygon)]
    for _ in range(q.int(1, 2)):
        k = len(out) - 1 - q.below(len(out))
        out[k] = [max(-180.0, min(180.0, out[k][0] + q.int(-6, 6) / float(per))),
                  max(-90.0, min(90.0, out[k][1] + q.int(-6, 6) / float(per)))]
    if kind(out) != 'simple':
        return polygon
    return out + [list(out[0])] if closed else out


def box(d, cx, cy, size, per=2):
    w, h = [round(size * d.choose([1.0, 0.5, 0.75]) * per) / per for _ in range(2)]
    w, h = max(w, 1.0 / per), max(h, 1.0 / per)
    return [[cx - w, cy - h], [cx + w, cy - h], [cx + w, cy + h], [cx - w, cy + h]]
