import numpy as np

import core
import gens
import pristine
import sut
from core import Facet, Violation, require

sut.stub_nhlib()

from mtoolkit import source_model as sm
from mtoolkit.catalog_filter import CatalogFilter, SourceModelCatalogFilter
from mtoolkit.geo.simple_fault import SimpleFaultGeo
from mtoolkit.geo.tectonic_region import TectonicRegionBuilder
from mtoolkit.scientific.catalogue_utilities import decimal_year, greg2julian, haversine
from mtoolkit.scientific.completeness import selected_eq_flag_vector, stepp_analysis
from mtoolkit.scientific.declustering import (afteran_decluster,
                                              gardner_knopoff_decluster,
                                              time_dist_windows)
from mtoolkit.scientific.fault_calculator import get_mfd
from mtoolkit.scientific.maximum_magnitude import (cum_mo_uncertainty, cumulative_moment,
                                                   h_smooth,
                                                   kijko_nonparametric_gauss,
                                                   maximum_magnitude_analysis)
from mtoolkit.scientific.recurrence import (b_max_likelihood, b_maxlike_time,
                                            recurrence_analysis, recurrence_table,
                                            weichert, weichert_prep)

RULE = """Two catalogues of 2 to 24 events (of the same or of different size)
with completeness tables and flags, and sequences of 2 to 10 calculations on
them with parameters of their own; then every calculation again in another order
on the same arrays, and on fresh copies, and some in a process of their own. The
second catalogue may be the first one with rows, a column or a value changed. Non-trivial: two different calculations
on one catalogue."""
ASSUMPTIONS = ["a calculation that is refused has to be refused in the same way again",
               "cumulative moment uncertainties are seeded or have no magnitude errors"]
MOST = 24


def event(q, n, k):
    y = 2009 - int(60 * q.float(0, 1) ** 1.5)
    return [y, q.int(1, 12), q.int(1, 28), round(10 + q.float(-2, 2), 2),
            round(40 + q.float(-2, 2), 2), q.int(40, 75) / 10.0,
            q.choose([0.0, 0.1, 0.25])]


def operation(q):
    return {'on': q.below(2), 'name': q.choose(NAMES),
            'option': q.choose(['GardnerKnopoff', 'Gruenthal', 'Uhrhammer']),
            'dm': q.choose([0.1, 0.2, 0.5]), 'dt': q.choose([1, 2, 5]),
            'x': q.choose([0.0, 0.2, 0.5, 1.0]), 'lock': q.bool(),
            'reference': q.choose([4.0, 4.5, 5.0]), 'n': q.choose([5, 11, 51]),
            'seed': q.int(0, 1000)}


RELATIONS = ['', '', 'reversed', 'magnitudes', 'years', 'exchange', 'one', 'middle', 'middle']


def related(how, events, q):
    """Much like the first catalogue: what is remembered of that one may be
    taken for this one."""
    if how == 'reversed':
        return events[::-1]
    i, j = q.below(len(events)), q.below(len(events))
    k = 5 if q.bool() else q.below(7)
    if how == 'one':
        events[i][0] -= 1
        events[j][5] = round(events[j][5] + 0.1, 1)
    elif how == 'middle':
        e = events[len(events) // 2]
        e[0] -= 1
        e[3:6] = [round(e[3] + 0.05, 2), round(e[4] - 0.05, 2), round(e[5] - 0.1, 1)]
    elif how == 'exchange':
        events[i][k], events[j][k] = events[j][k], events[i][k]
    else:
        column = [e[5 if how == 'magnitudes' else 0] for e in events]
        for e, v in zip(events, column[1:] + column[:1]):
            e[5 if how == 'magnitudes' else 0] = v
    return events


def case(d):
    n = d.int(2, MOST * d.scale)
    same = d.bool()
    out = {'catalogues': [], 'tables': [], 'flags': []}
    for c in range(2):
        m = n if same or not c else d.int(2, MOST * d.scale)
        part = d.part(MOST * 30)
        events = [event(part.part(30), m, k) for k in range(m)]
        t = d.part(40)
        rows, y, mc = [], 1995.0, 4.0
        for _ in range(t.int(1, 3)):
            rows.append([y, mc])
            y -= t.int(1, 20)
            mc = round(mc + t.choose([0.2, 0.5]), 1)
        if c:
            how = t.choose(RELATIONS)
            if how:
                events = related(how, [list(e) for e in out['catalogues'][0]], t)
                m = len(events)
                if t.bool():
                    rows = out['tables'][0]
        out['catalogues'].append(events)
        out['tables'].append(rows)
        out['flags'].append([t.choose([0, 0, 0, 1, -1]) if k < 6 else 0
                             for k in range(m)])
    out['ops'] = d.list(2, 10, 12, operation) if d.scale == 1 else \
        d.part(200, 1).list(2, 10, 12, operation)
    again = d.part(10)
    for k in range(1, len(out['ops'])):
        if again.chance(3, 8):               # the same on the other catalogue
            out['ops'][k] = dict(out['ops'][k - 1], on=1 - out['ops'][k - 1]['on'])
    out['order'] = [d.byte() for _ in range(len(out['ops']))]
    return out


class Data(object):
    def __init__(self, events, table, flags):
        self.matrix = np.array(events, dtype=float)
        self.year, self.mag, self.sigma = [self.matrix[:, i] for i in (0, 5, 6)]
        self.table = np.array(table)
        self.flags = np.array(flags)
        self.centres = np.array([4.25, 4.75, 5.25, 5.75, 6.25])
        self.periods = np.array([10.0, 15.0, 20.0, 20.0, 40.0])
        self.counts = np.array([20.0, 9.0, 5.0, 2.0, 1.0 + len(events)])
        self.source = sm.AreaSource()
        self.source.name = self.source.area_source_id = 'A'
        self.source.area_boundary = sm.AREA_BOUNDARY('epsg:4326', [
            sm.POINT(9.0, 39.0), sm.POINT(11.0, 39.0), sm.POINT(11.0, 41.0),
            sm.POINT(9.0, 40.0 + len(events) / 64.0)])

    def state(self):
        return [(k, a.tobytes(), a.shape, str(a.dtype)) if isinstance(a, np.ndarray) else
                (k, repr(sorted(vars(a).items())))
                for k, a in sorted(vars(self).items())]


def zone(d, o):
    return [f for s, f in CatalogFilter(SourceModelCatalogFilter()).filter_eqs(
        [d.source], d.matrix)]


REGION = TectonicRegionBuilder.create_new_tect_region(
    '009', {'model': ['WC1994'], 'weight': [1.0]}, {'value': [30.0], 'weight': [1.0]},
    {'value': [1.25e-5], 'weight': [1.0]})


def fault(d, o):
    return SimpleFaultGeo([tuple(p) for p in d.matrix[:, 3:5].tolist()], d.flags[0] + 1.0,
                          10.0 + len(d.table), 30.0 * o['dt'] if o['dt'] < 5 else 90.0)


OPERATIONS = {
    'Gardner-Knopoff': lambda d, o: gardner_knopoff_decluster(d.matrix, o['option'], o['x']),
    'Afteran': lambda d, o: afteran_decluster(d.matrix, o['option'], 30.0 * o['dt']),
    'Stepp': lambda d, o: stepp_analysis(d.year, d.mag, o['dm'], o['dt'], 0.2, o['lock']),
    'selection': lambda d, o: selected_eq_flag_vector(
        d.year, d.mag, d.table[:, 0], d.table[:, 1], d.flags),
    'recurrence': lambda d, o: recurrence_analysis(
        d.year, d.mag, d.table, o['dm'], 'Weichert' if o['lock'] else 'MLE',
        o['reference'], float(o['dt'])),
    'recurrence table': lambda d, o: recurrence_table(d.mag, o['dm'], d.year),
    'maximum likelihood': lambda d, o: b_max_likelihood(
        d.centres, d.counts, o['dm'], o['reference']),
    'likelihood in time': lambda d, o: b_maxlike_time(
        d.year, d.mag, d.table[:, 0], d.table[:, 1], o['dm'], o['reference']),
    'Weichert preparation': lambda d, o: weichert_prep(
        d.year, d.mag, d.table[:, 0], d.table[:, 1], o['dm'], float(o['dt'])),
    'Weichert': lambda d, o: weichert(d.periods, d.centres, d.counts, o['reference']),
    'Kijko': lambda d, o: kijko_nonparametric_gauss(
        d.mag, d.sigma, o['n'], 11, 1e-3, 20, False),
    'Kijko with maximum': lambda d, o: kijko_nonparametric_gauss(
        d.mag, d.sigma, o['n'], 11, 1e-3, 20, (float(d.mag.max()) + o['x'], 0.2)),
    'maximum magnitude': lambda d, o: maximum_magnitude_analysis(
        d.year, d.mag, d.sigma, 'Kijko_Npg', 1e-3, 20, o['n'], 11, 5),
    'cumulative moment': lambda d, o: cumulative_moment(d.year, d.mag),
    'moment uncertainty': lambda d, o: cum_mo_uncertainty(
        d.year, d.mag, d.sigma, 3, o['seed']),
    'moment analysis': lambda d, o: maximum_magnitude_analysis(
        d.year, d.mag, np.zeros(len(d.mag)), 'Cumulative_Moment', 1e-3, 20, o['n'], 11, 3),
    'zone': zone,
    'decimal year': lambda d, o: decimal_year(*d.matrix[:, :3].T),
    'Julian day': lambda d, o: greg2julian(*([x for x in d.matrix[:, :3].T] + [
        o['dt'], o['n'], o['x']])),
    'distance': lambda d, o: haversine(d.matrix[:, 3], d.matrix[:, 4], *d.matrix[-1, 3:5]),
    'windows': lambda d, o: time_dist_windows[o['option']].calc(d.mag),
    'smoothing': lambda d, o: h_smooth(d.mag),
    'fault': lambda d, o: [getattr(fault(d, o), 'get_' + k)()
                           for k in ('length', 'width', 'area')],
    'rates': lambda d, o: get_mfd(
        d.mag[0], o['x'] / 2, REGION, fault(d, o), 0.9, o['reference'], o['dm'], d.mag.max() + 2.0 * o['lock']),
}
NAMES = sorted(OPERATIONS)


def frozen(v):
    if isinstance(v, (tuple, list)):
        return tuple(frozen(x) for x in v)
    a = np.asarray(v)
    return a.shape, a.astype(float).tobytes()


def run(data, o):
    before = data.state()
    chance = core.random_state()
    try:
        result = frozen(OPERATIONS[o['name']](data, o))
    except Exception as e:                   # noqa: BLE001
        result = type(e).__name__
    after = data.state()
    if o['name'] == 'moment uncertainty' and core.random_state() != chance:
        raise Violation('%s with a seed changed the state of the random numbers that '
                        'others use' % o['name'])
    if after != before:
        raise Violation('%s modified %s' % (o['name'], [
            a[0] for a, b in zip(after, before) if a != b]))
    return result


def alone(argument):
    """One calculation in a process of its own."""
    events, table, flags, o = argument
    try:
        with core.quiet():
            return pristine.digest(run(Data(events, table, flags), o))
    except Violation as e:
        return str(e)


def check(c):
    pristine.start(alone)

    def data():
        return [Data(*x) for x in zip(c['catalogues'], c['tables'], c['flags'])]
    shared = data()
    first = [run(shared[o['on']], o) for o in c['ops']]
    order = sorted(range(len(first)), key=lambda i: (c['order'][i], i))
    for i in order:
        o = c['ops'][i]
        require(run(shared[o['on']], o) == first[i], '%s gives another result when repeated',
                o['name'])
    fresh = data()
    for i in order[::-1]:
        o = c['ops'][i]
        require(run(fresh[o['on']], o) == first[i], '%s gives another result on a copy',
                o['name'])
    twins = [i for i in range(1, len(first))
             if dict(c['ops'][i], on=0) == dict(c['ops'][i - 1], on=0)]
    for i in sorted({order[0]} | set(twins or [len(first) - 1])):
        o = c['ops'][i]
        k = o['on']
        own = pristine.call([c['catalogues'][k], c['tables'][k], c['flags'][k], o])
        require(own == pristine.digest(first[i]),
                '%s gives another result in a process of its own (%s)', o['name'], own)
    used = [set(o['name'] for o in c['ops'] if o['on'] == k) for k in (0, 1)]
    out = {'nontrivial': max(len(u) for u in used) > 1,
           'refused': any(isinstance(r, str) for r in first),
           'equal sizes': len(c['catalogues'][0]) == len(c['catalogues'][1])}
    for o, r in zip(c['ops'], first):
        out[o['name']] = True
        if isinstance(r, str):
            out[o['name'] + ' refused: ' + r] = True
    return out


FACETS = [Facet('history', lambda: gens.decoded(2 * (MOST * 30 + 40) + 150, case), check,
                quick=450, thorough=14000),
          Facet('large', lambda: gens.large(case, 8), check, quick=40, thorough=300)]
