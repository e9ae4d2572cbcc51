import math
import os
import re
import shutil

import numpy as np

import cli
import flow
import gens
import nrmlgen
from core import Facet, Violation, require

RULE = """Catalogues of 1 to 40 events, often few, in one year or of one
magnitude, models of 1 to 4 zones of which some are far from every event, around
a single one, or ordinary, in any order, every algorithm and job order, and
tables by Stepp, stored or by default, some of them later than every event.
Non-trivial: something cannot be computed and the run has another zone with
events, or none of the zones has any."""
ASSUMPTIONS = ["events are too few when there are none, fewer than two in a period "
               "(maximum likelihood), of one magnitude only (Weichert, Kijko) or "
               "in one year only (cumulative moment)", "otherwise what can be computed is what the scientific functions, decided by C20 "
               "to C28, return a finite result for"]
MOST = 40


def case(d):
    here = flow.centres(d)
    c = {'config': flow.config(d.part(flow.CONFIG), proc=flow.PROC[1:])}
    m = c['config']
    sigma = not ('MaximumMagnitude' in m['processing_jobs'] and flow.random_result(m))
    how = d.choose(['', '', 'one year', 'one magnitude', 'two magnitudes'])
    few = d.bool()
    if d.chance(1, 8):                       # the rate is beyond every number
        m['Recurrence']['reference_magnitude'] = d.choose([-400.0, -2000.0, 2000.0])
    c['rows'] = flow.rows(d.part(flow.rows_size(MOST)), 8 if few else MOST,
                          here[:1], sigma, least=1 if few else 12)
    for k, r in enumerate(c['rows']):
        if how == 'one year':
            r[gens.FIELDS.index('year')] = '2001'
            if r[gens.FIELDS.index('month')] == '2':
                r[gens.FIELDS.index('day')] = '3'
        elif how:
            r[gens.FIELDS.index('Mw')] = '5.0' if k % 2 or how[0] == 'o' else '5.3'
    model = flow.model(d.part(flow.MODEL), here[:1], lo=1, hi=4)
    used = d.int(1, 5)
    for k, s in enumerate(s for s in model['items'] if s['kind'] == 'area'):
        s['id'] = 'zone%d' % (used + k)
        s['name'] = 'Region %s' % name(used + k)
        q = d.part(8)
        what = q.choose(['far', 'one', '', '', ''])
        e = q.choose(c['rows'])
        if what == 'far':
            s['pos'] = [['100.0', '-40.0'], ['101.0', '-40.0'], ['101.0', '-39.0']]
        elif what == 'one':
            x, y = (float(e[gens.FIELDS.index(f)]) for f in ('longitude', 'latitude'))
            w = q.choose([0.0005, 0.05])
            s['pos'] = [[repr(a), repr(b)] for a, b in (
                (x - w, y - w), (x + w, y - w), (x + w, y + w), (x - w, y + w))]
    c['model'] = model
    c['table'] = None
    if not m['preprocessing_jobs']:
        c['table'] = d.choose([None, [[2011.0, 9.0]], [[1990.0, 4.0]],
                               [[2005.0, 4.0], [1970.0, 5.0]], [[2009.0, 6.0]]])
    c['store'] = d.bool()
    return c


def name(k):
    return 'ABCDEFGHI'[k % 9] * (k // 9 + 1)


def names(what, message):
    return re.search(r'(?<!\w)%s(?!\w)' % re.escape(what), message)


def check(c):
    p = flow.preprocess(c, c['table'])
    folder = os.path.join(os.getcwd(), 'c33')
    shutil.rmtree(folder, ignore_errors=True)
    os.mkdir(folder)
    flow.write_inputs(c, folder)
    cfg = flow.full_config(c, folder)
    if c['table']:
        np.savetxt(os.path.join(folder, 'table.csv'), np.array(c['table']),
                   fmt='%10.5f', delimiter=',')
    elif not c['config']['preprocessing_jobs']:
        cfg['completeness_table_file'] = None
    if not c['store']:
        cfg['pprocessing_result_file'] = None
    cli.write_config('config.yml', cfg)
    out = cli.run('-i', 'config.yml')
    if out.error is not None:
        raise Violation('the run raised %r' % out.error)
    try:
        got = flow.read_result(os.path.join(folder, 'result.xml'))
    except Exception as e:                   # noqa: BLE001
        raise Violation('the result cannot be read: %r' % e) from None
    want = nrmlgen.expected(c['model'])
    areas = [s for s in c['model']['items'] if s['kind'] == 'area']
    require(len(got) == len(want), '%d sources instead of %d', len(got), len(want))
    warnings = out.log.warnings()
    failures, filled, computed = 0, 0, 0
    for g, w, s in zip(got, want, areas):
        events = flow.inside(p.working, s['pos'])
        filled += len(events) > 0
        w['gr'], failed = flow.process(c['config'], w['gr'], p.table, events)
        require(all(math.isfinite(v) for v in g['gr'][:4]),
                'source %s with %d events has %s', s['id'], len(events), g['gr'])
        diff = flow.source_difference(g, w)
        require(diff is None, 'source %s with %d events (%s not computable): %s', s['id'],
                len(events), failed, diff)
        if failed:
            failures += 1
            found = [m for m in warnings if names(s['id'], m) or names(s['name'], m)]
            require(found, 'no warning names source %s, for which %s cannot be '
                    'computed: %s', s['id'], failed, warnings)
            require(any(m in out.out + out.err for m in found),
                    'the user does not see the warning: %s', out.err[-300:])
        computed += len(failed) < len(c['config']['processing_jobs'])
    return {'nontrivial': failures > 0 and (filled > 1 or not filled
                                            or filled < len(areas)),
            'no zone has events': not filled, 'one zone': len(areas) == 1,
            'some computed, some not': 0 < failures and computed > 0,
            'stored table': bool(c['table']),
            c['config']['Recurrence']['recurrence_algorithm']:
                'Recurrence' in c['config']['processing_jobs'],
            c['config']['MaximumMagnitude']['maxim_mag_algorithm']:
                'MaximumMagnitude' in c['config']['processing_jobs']}


FACETS = [Facet('zones', lambda: gens.decoded(
    flow.CONFIG + 60 + flow.rows_size(MOST) + flow.MODEL, case), check, quick=200,
    thorough=8000),
          Facet('large', lambda: gens.large(case, 6), check, quick=40, thorough=300)]
