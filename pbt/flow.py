"""Whole workflows: catalogue, source model and configuration, and what has to
come out. The scientific functions are the components that C13 to C28 decide;
how they are put together is what the properties on workflows are about."""

import math
import os

import numpy as np
from lxml import etree

import cli
import gens
import geomgen
import nrmlgen
from core import Discard

from mtoolkit.scientific.completeness import (selected_eq_flag_vector,
                                              stepp_analysis)
from mtoolkit.scientific.declustering import (afteran_decluster,
                                              gardner_knopoff_decluster)
from mtoolkit.scientific.maximum_magnitude import (cum_mo_uncertainty,
                                                   kijko_nonparametric_gauss)
from mtoolkit.scientific.recurrence import (b_maxlike_time, weichert,
                                            weichert_prep)

LENGTH = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
EVENT = 40
PRE = [[], ['GardnerKnopoff'], ['Afteran'], ['Stepp'],
       ['GardnerKnopoff', 'Stepp'], ['Afteran', 'Stepp'],
       ['Stepp', 'GardnerKnopoff'], ['Stepp', 'Afteran']]
PROC = [[], ['Recurrence'], ['MaximumMagnitude'], ['Recurrence', 'MaximumMagnitude'],
        ['Recurrence', 'MaximumMagnitude'], ['MaximumMagnitude', 'Recurrence']]


# ---- generation -------------------------------------------------------------

def magnitude(q, b=1.0, low=4.0, digits=1):
    return round(min(8.5, low - math.log10(1 - q.float(0, 0.9999)) / b), digits)


def row(q, k, event, sigma=True):
    """The cells of an event, invalid or blank optional fields included."""
    y, m, day, lon, lat, mw = event
    c = dict.fromkeys(gens.FIELDS, '')
    c['eventID'] = str(q.choose([k + 1, 1000 - k if k < 1000 else k, q.int(1, 10 ** 9)]))
    c['Agency'] = q.choose(['AAA', 'ISC', '', 'a b', 'NEIC, "x"'])
    c['Identifier'] = str(q.int(1, 10 ** 6))
    c['year'], c['month'], c['day'] = str(y), str(m), str(day)
    c['hour'], c['minute'] = str(q.int(0, 23)), str(q.int(0, 59))
    c['second'] = q.choose(['', '0', '12.5', '59.9', '61', 'x', repr(q.float(0, 60))])
    c['timeError'] = q.choose(['', '0.5', '-1.25', 'n/a'])
    c['longitude'], c['latitude'] = repr(lon), repr(lat)
    c['SemiMajor90'], c['SemiMinor90'], c['ErrorStrike'] = q.choose(
        [('', '', ''), ('12.5', '3.25', '180'), ('3', '12', '20'), ('5', '2', ''),
         ('5', '5', '0')])
    c['depth'] = q.choose(['10', '0.1', '33.25', '700'])
    c['depthError'] = q.choose(['', '2.5', '-3'])
    c['Mw'] = repr(mw)
    c['sigmaMw'] = q.choose(['', '0.1', '0.25', '-0.1', '0.05']) if sigma else \
        q.choose(['', '0', '-0.1'])
    for f in ('Ms', 'sigmaMs', 'mb', 'sigmamb', 'ML', 'sigmaML'):
        c[f] = q.choose(['', '5.5', '0.2', '-1', '?'])
    return [c[f] for f in gens.FIELDS]


def rows(d, most, centres, sigma=True, least=1):
    """Events around the centres, some of them close to an earlier one."""
    most *= d.scale
    n = d.choose([least, least + 1, least + 2, most, most]
                 + [d.int(least, most)] * 3) if d.scale == 1 else d.int(least, most)
    start = d.choose([1950, 1980, 1900, 1900, 1950, 1980, 1000, -400])
    end = 2009 if start > 1000 or d.bool() else start + 60
    b = d.choose([1.0, 0.7, 1.5])
    low = d.choose([4.0, 4.0, 4.0, 2.5, 5.0])
    digits, places = d.choose([1, 1, 1, 1, 1, 2, 2, 5]), d.choose([3, 3, 1, 6, 15])
    events = []
    for k in range(n):
        q = d.part(EVENT)
        mw = magnitude(q, b, low, digits)
        if events and q.chance(1, 4):
            p = q.choose(events)
            y, m, day = p[0] + q.choose([0, 0, 0, 1]), q.int(1, 12), q.int(1, 28)
            lon = p[3] + q.float(-0.2, 0.2)
            lat = p[4] + q.float(-0.2, 0.2)
        else:
            y = end - int((end - start) * q.float(0, 1) ** 1.5)
            m = q.int(1, 12)
            day = q.int(1, 29 if m == 2 else LENGTH[m - 1])
            cx, cy = q.choose(centres)
            lon, lat = cx + q.float(-3, 3), cy + q.float(-3, 3)
        events.append([y, m, day, round(lon, places), round(lat, places), mw])
    out = [row(d.part(36), k, e, sigma) for k, e in enumerate(events)]
    # event identifiers need not be unique, and rows may be repeated
    q = d.part(most + 10)
    if q.chance(1, 4):
        for r in out:
            r[0] = str(q.int(1, 3))
    elif q.chance(1, 5):
        gens.repeated(q.part(most + 2), out, most)
    return out


def rows_size(most):
    return 60 + most * (EVENT + 37)


def zone_positions(q, centres):
    cx, cy = q.choose(centres)
    cx, cy = cx + q.choose([0, 0, 1, -1]), cy + q.choose([0, 0, 1, -1])
    size = q.choose([2.0, 3.0, 4.0, 0.5])
    p = geomgen.box(q, cx, cy, size)
    if q.chance(1, 2):
        s = geomgen.star(q, cx, cy, size)
        if geomgen.kind(s) == 'simple':
            p = s
    if q.bool():
        p = p[::-1]
    if q.bool():
        p = p + p[:1]
    return [[repr(float(x)), repr(float(y))] for x, y in p]


def model(d, centres, lo=1, hi=3):
    m = nrmlgen.model(d.part(nrmlgen.MODEL), lo, hi)
    for s in m['items']:
        if s['kind'] == 'area':
            s['pos'] = zone_positions(d.part(40), centres)
    areas = [s for s in m['items'] if s['kind'] == 'area']
    for k in range(1, len(areas)):           # much like another one
        if d.chance(1, 5):
            areas[k]['pos'] = [[repr(x), repr(y)] for x, y in geomgen.variation(
                d, [[float(t) for t in p] for p in areas[k - 1]['pos']])]
    return m


CENTRES = [(10, 40), (16, 44)]


def centres(d):
    """Two places of a region of the earth."""
    x, y = d.choose([(0, 0), (0, 0), (0, 0), (-80, -75), (-130, -10), (150, -20),
                     (-10, -40), (-11, 0), (40, 40)])
    return [(a + x, b + y) for a, b in CENTRES]


MODEL = nrmlgen.MODEL + 4 * 40 + 40


def config(d, pre=None, proc=None):
    """Jobs and their parameters; file names are set by the checks."""
    c = {'preprocessing_jobs': d.choose(PRE) if pre is None else d.choose(pre),
         'processing_jobs': d.choose(PROC) if proc is None else d.choose(proc),
         'GardnerKnopoff': {
             'time_dist_windows': d.choose(['GardnerKnopoff', 'Uhrhammer', 'Gruenthal']),
             'foreshock_time_window': d.choose([0, 0.5, 1.0, 0.1])},
         'Afteran': {
             'time_dist_windows': d.choose(['Gruenthal', 'GardnerKnopoff', 'Uhrhammer']),
             'time_window': d.choose([60.0, 30.5, 365.0, 10, 730.0])},
         'Stepp': {'time_window': d.choose([1, 2, 5, 1, 2, 5, 3, 10]),
                   'magnitude_windows': d.choose([0.2, 0.1, 0.5, 0.2, 0.1, 0.25, 0.3]),
                   'sensitivity': d.choose([0.1, 0.2, 0.5, 0.05]),
                   'increment_lock': d.bool()},
         'Recurrence': {'magnitude_window': d.choose([0.2, 0.1, 0.5]),
                        'recurrence_algorithm': d.choose(['Weichert', 'MLE']),
                        'reference_magnitude': d.choose([4.0, 4.5, 5.0, 1.1, 4, 0, 0.0, -1.5, 8]),
                        'time_window': d.choose([1.0, 2.0, 0.5])},
         'MaximumMagnitude': {
             'maxim_mag_algorithm': d.choose(['Kijko_Npg', 'Cumulative_Moment']),
             'iteration_tolerance': d.choose([1e-5, 1e-3, 0.1]),
             'maximum_iterations': d.choose([1000, 3, 20]),
             'neq': d.choose([100, 10, 5]), 'number_samples': d.choose([51, 11]),
             'number_bootstraps': d.choose([5, 2, 10])}}
    return c


CONFIG = 40


def random_result(c):
    """The cumulative moment bootstrap is random with magnitude errors."""
    return c['MaximumMagnitude']['maxim_mag_algorithm'] == 'Cumulative_Moment'


# ---- files --------------------------------------------------------------------

def write_text(path, text):
    with open(path, 'w', newline='') as f:
        f.write(text)


def write_inputs(case, folder):
    """eq.csv and, with a model, sm.xml."""
    write_text(os.path.join(folder, 'eq.csv'), gens.csv_text(case['rows']))
    if case.get('model'):
        with open(os.path.join(folder, 'sm.xml'), 'wb') as f:
            f.write(nrmlgen.xml(case['model']))


def full_config(case, folder, **changes):
    def at(name):
        return os.path.join(folder, name)
    c = cli.config(eq_catalog_file=at('eq.csv'), pprocessing_result_file=at('pre.csv'),
                   completeness_table_file=at('table.csv'),
                   source_model_file=at('sm.xml') if case.get('model') else None,
                   result_file=at('result.xml'))
    c.update(case['config'])
    for k in ('preprocessing_jobs', 'processing_jobs'):
        c[k] = c[k] or None
    c.update(changes)
    for job in case.get('omit', []):         # parameters of jobs that are not run
        del c[job]
    return c


NRML = '{http://openquake.org/xmlns/nrml/0.3}'
GML = '{http://www.opengis.net/gml}'


def read_result(path):
    """The sources of a result document, as nrmlgen.as_read gives them."""
    root = etree.parse(path).getroot()
    sm = root.find(NRML + 'sourceModel')
    out = []
    for e in sm.findall(NRML + 'areaSource'):
        def one(name, space=NRML):
            found = list(e.iter(space + name))
            return found[0] if len(found) == 1 else None

        def num(name):
            return float(one(name).text)

        pos = [float(t) for t in one('posList', GML).text.split()]
        tgr = one('truncatedGutenbergRichter')
        dist = e.find(NRML + 'ruptureDepthDistribution')
        out.append({
            'nrml_id': root.get(GML + 'id'), 'source_model_id': sm.get(GML + 'id'),
            'area_source_id': e.get(GML + 'id'), 'name': one('name', GML).text,
            'tectonic_region': one('tectonicRegion').text,
            'srs': one('LinearRing', GML).get('srsName'),
            'pos': list(zip(pos[::2], pos[1::2])),
            'gr': (num('aValueCumulative'), num('bValue'), num('minMagnitude'),
                   num('maxMagnitude'), tgr.get('type')),
            'strike': num('strike'), 'dip': num('dip'), 'rake': num('rake'),
            'magtype': dist.find(NRML + 'magnitude').get('type'),
            'mags': [float(t) for t in dist.find(NRML + 'magnitude').text.split()],
            'depths': [float(t) for t in dist.find(NRML + 'depth').text.split()],
            'hypo': num('hypocentralDepth')})
    return out


def read_stored(path):
    """Entries of a stored catalogue."""
    import csv
    with open(path, newline='') as f:
        lines = list(csv.reader(f))
    return lines[0], [gens.expected_entry(r) for r in lines[1:]]


def read_table(path):
    with open(path) as f:
        return [tuple(float(t) for t in line.split(',')) for line in f if line.strip()]


# ---- reference ------------------------------------------------------------------

class Preprocessed(object):
    """matrix, working (declustered matrix), flags, table, selected (indexes)."""


def preprocess(case, table=None):
    c = case['config']
    p = Preprocessed()
    p.entries = [gens.expected_entry(r) for r in case['rows']]
    p.matrix = np.array([[e[f] for f in ('year', 'month', 'day', 'longitude',
                                         'latitude', 'Mw', 'sigmaMw')]
                         for e in p.entries], dtype=float)
    p.working = p.matrix
    p.flags = np.zeros(len(p.matrix))
    p.table = np.array([[p.matrix[:, 0].min(), p.matrix[:, 5].min()]])
    for job in c['preprocessing_jobs']:
        if job == 'GardnerKnopoff':
            v = gardner_knopoff_decluster(p.matrix.copy(), c[job]['time_dist_windows'],
                                          c[job]['foreshock_time_window'])
        elif job == 'Afteran':
            v = afteran_decluster(p.matrix.copy(), c[job]['time_dist_windows'],
                                  c[job]['time_window'])
        else:
            try:
                p.table = stepp_analysis(
                    p.working[:, 0].copy(), p.working[:, 5].copy(),
                    c[job]['magnitude_windows'], c[job]['time_window'],
                    c[job]['sensitivity'], c[job]['increment_lock'])
            except Exception:           # shorter than one time window
                raise Discard()
            continue
        p.flags = np.asarray(v[2])
        p.working = p.matrix[p.flags == 0]
    if not c['preprocessing_jobs'] and table is not None:
        p.table = np.array(table)
    drop = selected_eq_flag_vector(p.matrix[:, 0], p.matrix[:, 5], p.table[:, 0],
                                   p.table[:, 1], p.flags)
    p.selected = [i for i in range(len(p.matrix)) if not drop[i]]
    return p


def inside(working, positions):
    ps = [(float(x), float(y)) for x, y in positions]
    if len(ps) > 1 and ps[0] == ps[-1]:
        ps = ps[:-1]
    keep = [i for i in range(len(working))
            if geomgen.where(ps, (working[i, 3], working[i, 4])) == 'in']
    return working[keep]


def no_recurrence(r, table, events):
    """Too few events: none, or in every period fewer than two (there is no
    error of the b-value), or all of them in the first or last bin."""
    if not len(events):
        return True
    if r['recurrence_algorithm'] == 'MLE':
        for y in set(t[0] for t in table):
            least = min(t[1] for t in table if t[0] == y)
            if sum(1 for e in events if e[0] >= y and e[5] >= least - 1e-5) < 2:
                return True
        return False
    # Weichert: events of a single magnitude
    return len(set(events[:, 5])) == 1


def no_maximum(m, events):
    """Too few events: no width of the kernel, no moment but the average."""
    if not len(events):
        return True
    if m['maxim_mag_algorithm'] == 'Kijko_Npg':
        used = sorted(events[:, 5])[-m['neq']:]
        return len(set(used)) == 1
    return len(set(events[:, 0])) == 1


def recurrence_values(c, table, events):
    """b, error, rate, error of the rate, or None if they cannot be computed."""
    r = c['Recurrence']
    if no_recurrence(r, table, events):
        return None
    year, mw = events[:, 0].copy(), events[:, 5].copy()
    table = np.array(table)
    try:
        if not len(events):
            return None
        if r['recurrence_algorithm'] == 'Weichert':
            centres, periods, counts = weichert_prep(
                year, mw, table[:, 0], table[:, 1], r['magnitude_window'],
                r['time_window'])
            v = weichert(periods, centres, counts, r['reference_magnitude'])
        else:
            v = b_maxlike_time(year, mw, table[:, 0], table[:, 1],
                               r['magnitude_window'], r['reference_magnitude'])
    except Exception:                    # noqa: BLE001
        return None
    return [float(x) for x in v] if np.all(np.isfinite(v)) else None


def maximum_values(c, events, seed=None):
    m = c['MaximumMagnitude']
    if no_maximum(m, events):
        return None
    year, mw, sigma = events[:, 0].copy(), events[:, 5].copy(), events[:, 6].copy()
    try:
        if not len(events):
            return None
        if m['maxim_mag_algorithm'] == 'Kijko_Npg':
            v = kijko_nonparametric_gauss(
                mw, sigma, m['neq'], m['number_samples'], m['iteration_tolerance'],
                m['maximum_iterations'], False)
        else:
            v = cum_mo_uncertainty(year, mw, sigma, m['number_bootstraps'], seed)
    except Exception:                    # noqa: BLE001
        return None
    return [float(x) for x in v] if np.all(np.isfinite(v)) else None


def process(c, gr, table, events):
    """The new (a, b, mmin, mmax, type), and the jobs that failed."""
    a, b, mmin, mmax, kind = gr
    failed = []
    for job in c['processing_jobs']:
        if job == 'Recurrence':
            v = recurrence_values(c, table, events)
            if v is None:
                failed.append(job)
            else:
                b, a, mmin = v[0], v[2], c['Recurrence']['reference_magnitude']
        else:
            v = maximum_values(c, events)
            if v is None:
                failed.append(job)
            else:
                mmax = v[0]
    return (a, b, mmin, mmax, kind), failed


def same_number(a, b):
    return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-9)


def same_gr(got, want):
    return got[4] == want[4] and all(same_number(g, w) for g, w in zip(got[:4], want[:4]))


def source_difference(got, want):
    for k in want:
        if k == 'gr':
            if not same_gr(got[k], want[k]):
                return 'Gutenberg-Richter values %r instead of %r' % (got[k], want[k])
        elif got[k] != want[k]:
            return '%s is %r instead of %r' % (k, got[k], want[k])
    return None
