import numpy as np

import gens
import geomgen
from core import Discard, Facet, Violation, code, require

from mtoolkit import source_model as sm
from mtoolkit.catalog_filter import CatalogFilter, SourceModelCatalogFilter

RULE = """One to four zones, some of the same name (rectangles, concave and overlapping star-shaped
polygons, polygons with crossing edges) and 0 to 30 epicentres, among them
vertices, points on edges and points level with vertices; exact rational
point-in-polygon test as the oracle. Non-trivial: some zone has an event inside
and one outside."""
ASSUMPTIONS = ["polygons are planar in longitude and latitude and do not span "
               "the 180 degree meridian"]


def zone(d, centres, rings=False):
    cx, cy = d.choose(centres)
    size = d.choose([2.0, 4.0, 8.0])
    shape = d.choose(['box', 'star', 'star', 'star', 'cross'] + (['ring'] if rings else []))
    p = geomgen.box(d, cx, cy, size) if shape == 'box' else \
        geomgen.star(d, cx, cy, size)
    if shape == 'ring':
        p = geomgen.ring(d.part(8), cx, cy, d.choose([size, 0.25, 1.0]))
    if shape == 'cross' and len(p) > 3:
        i = d.below(len(p))
        p[i], p[i - 1] = p[i - 1], p[i]
    return {'pos': p, 'turn': d.below(12), 'reverse': d.bool(), 'close': d.bool()}


def case(d):
    centres = [(d.int(-170, 170), d.int(-80, 80))]
    centres.append((centres[0][0] + d.int(-6, 6), centres[0][1] + d.int(-6, 6)))
    zones = d.list(1, 4, 80, lambda q: zone(q, centres, d.scale > 1))
    q = d.part(61) if d.scale == 1 else d
    for k in range(1, len(zones)):           # much like another one
        if q.chance(1, 3) and geomgen.kind(zones[k - 1]['pos']) == 'simple':
            zones[k]['pos'] = geomgen.variation(q, zones[k - 1]['pos'])

    def event(q):
        z = q.choose(zones)['pos']
        how = q.below(8)
        a = q.choose(z)
        b = z[(z.index(a) + 1) % len(z)]
        if how == 0:
            x, y = a
        elif how == 1:
            x, y = (a[0] + b[0]) / 2, (a[1] + b[1]) / 2
            if q.bool():                      # just beside the edge
                x += q.int(-1, 1) / 2.0 ** 30
        elif how == 2:
            x, y = a[0] + q.int(-40, 40) / 8.0, a[1]
        elif how == 3:
            x, y = a[0], a[1] + q.int(-40, 40) / 8.0
        elif how == 4:
            near = q.choose([1024.0, 1024.0, 2.0 ** 30])
            x, y = a[0] + q.int(-2, 2) / near, a[1] + q.int(-2, 2) / near
        else:
            c = q.choose(centres)
            x, y = c[0] + q.int(-72, 72) / 8.0, c[1] + q.int(-72, 72) / 8.0
        return [q.int(1900, 2010), q.int(1, 12), q.int(1, 28), x, y,
                q.grid(3, 8, 10), q.grid(0, 1, 10)]

    return {'zones': zones, 'names': q.below(2),
            'events': gens.repeated(d.part(32), d.list(0, 30, 28, event), 30)}


def many_events(d):
    c = case(d)
    return dict(c, count=gens.many(d, 5000) if c['events'] else 0)


def source(pos, k, label=0):
    a = sm.AreaSource()
    a.area_source_id, a.name = 'zone%d' % k, 'zone%d' % label
    a.nrml_id = a.source_model_id = 'model'
    a.tectonic_region = 'Volcanic'
    a.area_boundary = sm.AREA_BOUNDARY('epsg:4326', [sm.POINT(*p) for p in pos])
    return a


def same(got, want):
    return len(got) == len(want) and all(
        list(g) == list(w) for g, w in zip(got, want))


def where(polygon, events):
    at = dict((p, geomgen.where(polygon, p)) for p in set((e[3], e[4]) for e in events))
    return [at[e[3], e[4]] for e in events]


def check(c):
    if 'count' in c:
        # every time a year later
        n, few = c['count'], c['events']
        c = dict(c, events=[[few[i % len(few)][0] + i // len(few)] + few[i % len(few)][1:]
                            for i in range(n)])
    events = np.array(c['events'], dtype=float).reshape(-1, 7)
    zones = [z for z in c['zones'] if geomgen.kind(z['pos']) != 'degenerate']
    if not zones:
        raise Discard()
    good = [z for z in zones if geomgen.kind(z['pos']) == 'simple']
    sources = [source(z['pos'], k, k * (c['names'] > 0)) for k, z in enumerate(good)]
    with code('filtering'):
        got = list(CatalogFilter(SourceModelCatalogFilter()).filter_eqs(sources, events))
        every = list(CatalogFilter().filter_eqs(sources, events))
    require(len(got) == len(good) == len(every), 'results for %d of %d zones',
            len(got), len(good))
    some = False
    for (s, got_in), (s2, got_all), z, made in zip(got, every, good, sources):
        require(s is made and s2 is made, 'not its own source')
        require(same(got_all, events), 'without a model: not every event')
        places = where(z['pos'], c['events'])
        want = [e for e, w in zip(c['events'], places) if w == 'in']
        require(same(got_in, want), 'zone %r: %d events instead of %d:\n%r\n%r',
                z['pos'], len(got_in), len(want), got_in, want)
        some = some or 0 < len(want) < len(events)
        turned = z['pos'][z['turn'] % len(z['pos']):] + z['pos'][:z['turn'] % len(z['pos'])]
        if z['reverse']:
            turned = turned[::-1]
        if z['close']:
            turned = turned + turned[:1]
        with code('filtering'):
            again = SourceModelCatalogFilter().filter_eqs(source(turned, 0), events)
        require(same(again, want), 'another start or direction: %r: %d events '
                'instead of %d', turned, len(again), len(want))
    crossing = [z for z in zones if geomgen.kind(z['pos']) == 'crossing']
    for z in crossing:
        try:
            got = SourceModelCatalogFilter().filter_eqs(source(z['pos'], 0), events)
        except Exception:
            continue
        raise Violation('a self-intersecting boundary was accepted: %r' % z['pos'])
    return {'nontrivial': some, 'zones': len(good), 'crossing': bool(crossing),
            'equal names': not c['names'] and len(good) > 1,
            'on a boundary': any('on' in where(z['pos'], c['events']) for z in good)}


FACETS = [Facet('zones', lambda: gens.decoded(1421, case), check, quick=400,
                thorough=15000),
          Facet('large', lambda: gens.large(case, 10), check, quick=40, thorough=300),
          Facet('many events', lambda: gens.large(many_events, 1), check, quick=20, thorough=150)]
