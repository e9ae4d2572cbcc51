import copy
import math

import numpy as np

import flow
import gens
import nrmlgen
from core import Discard, Facet, code, require

from mtoolkit import jobs
from mtoolkit.workflow import Context

RULE = """An area source with any values, 0 to 45 events of its zone with and
without magnitude errors, completeness tables of 1 to 4 rows, both recurrence
and both maximum magnitude algorithms with their parameters, the two jobs in any
order, on a context with another source done before; the oracle calls the
algorithms themselves. Non-trivial: some value computed."""
ASSUMPTIONS = ["the algorithms are decided by C20 to C28",
               "with magnitude errors the cumulative moment estimate is random: it has to be "
               "within 8 standard errors of a larger sample"]
MOST = 45


def event(q):
    return [2009 - int(60 * q.float(0, 1) ** 1.5), q.int(1, 12), q.int(1, 28),
            q.rounded(5, 15, 2), q.rounded(35, 45, 2), flow.magnitude(q),
            q.choose([0.0, 0.1, 0.3])]


def case(d):
    c = {'config': flow.config(d.part(flow.CONFIG), proc=[
        ['Recurrence'], ['MaximumMagnitude'], ['Recurrence', 'MaximumMagnitude'],
        ['MaximumMagnitude', 'Recurrence']])}
    c['table'] = d.list(1, 4, 6, lambda q: [q.int(1940, q.choose([1990, 2005])),
                                           q.int(38, q.choose([45, 45, 55])) / 10])
    c['table'].sort(key=lambda r: (-r[0], r[1]))
    c['errors'] = d.bool()
    c['before'] = d.bool()
    n = d.choose([0, 1, 2, 3, 10, 30, MOST, MOST, MOST, d.int(0, MOST)]) if d.scale == 1 \
        else d.int(0, MOST * d.scale)
    c['events'] = [event(d.part(36)) for _ in range(n)]
    if not c['errors']:
        c['events'] = [e[:6] + [0.0] for e in c['events']]
    c['model'] = nrmlgen.model(d.part(nrmlgen.MODEL), 2, 2, False)
    return c


def check_errors(c, source, table, shown, random):
    """The errors of the values are kept with the source."""
    cfg = c['config']
    for job in cfg['processing_jobs']:
        if job == 'Recurrence':
            v = flow.recurrence_values(cfg, table, shown)
            kept = [('recurrence_sigb', 1), ('recurrence_siga_m', 3)]
        else:
            v = None if random else flow.maximum_values(cfg, shown)
            kept = [('max_mag_sigma', 1)]
        for name, k in kept:
            if v is not None:
                got = getattr(source, name, None)
                require(got is not None and flow.same_number(float(got), v[k]),
                        '%s is %r instead of %r', name, got, v[k])


def check(c):
    cfg = c['config']
    m = c['model']
    sources = [nrmlgen.area_source(s, m) for s in m['items']]
    events = np.array(c['events'], dtype=float).reshape(-1, 7)
    if not len(events):
        events = np.array([])
    table = np.array(c['table'], dtype=float)
    context = Context()
    context.config = copy.deepcopy(flow.full_config(c, '.'))
    context.completeness_table = table.copy()
    steps = [{'Recurrence': jobs.recurrence,
              'MaximumMagnitude': jobs.maximum_magnitude}[j]
             for j in cfg['processing_jobs']]
    if c['before']:
        context.cur_sm = sources[1]
        context.current_filtered_eq = np.array([
            [1990.0, 1, 1, 10, 40, 4.0 + k / 10.0, 0.0] for k in (0, 0, 0, 0, 1, 1, 2, 3)])
        with code('the jobs'):
            for s in steps:
                s(context)
    context.cur_sm = sources[0]
    context.current_filtered_eq = events.copy()
    with code('the jobs'):
        for s in steps:
            s(context)
    require(context.cur_sm is sources[0], 'another source')
    got = nrmlgen.attributes(sources[0])
    want = nrmlgen.as_read(m['items'][0], m)
    shown = events.reshape(-1, 7)
    random = flow.random_result(cfg) and c['errors'] and len(shown) and \
        'MaximumMagnitude' in cfg['processing_jobs']
    start = want['gr']
    want['gr'], failed = flow.process(cfg, start, table, shown)
    if random:
        sample = copy.deepcopy(cfg)
        sample['MaximumMagnitude']['number_bootstraps'] = 150
        v = flow.maximum_values(sample, shown, 7)
        plain = flow.maximum_values(cfg, shown)
        if v is None or plain is None:
            raise Discard()
        n = cfg['MaximumMagnitude']['number_bootstraps']
        top = got['gr'][3]
        require(abs(top - v[0]) <= 8 * v[1] * (n ** -0.5 + 0.1) + 1e-9,
                'maximum magnitude %r, a larger sample gives %r with deviation %r',
                top, v[0], v[1])
        want['gr'] = want['gr'][:3] + (top,) + want['gr'][4:]
    diff = flow.source_difference(got, want)
    require(diff is None, '%s', diff)
    check_errors(c, sources[0], table, shown, random)
    for v in got['gr'][:4]:
        require(math.isfinite(v), 'value %r', v)
    require(np.array_equal(context.completeness_table, table)
            and np.array_equal(context.current_filtered_eq, events),
            'the events or the table were modified')
    return {'nontrivial': want['gr'] != start, 'random': bool(random),
            'not computed': bool(failed), 'no events': not len(shown),
            cfg['Recurrence']['recurrence_algorithm']: True,
            cfg['MaximumMagnitude']['maxim_mag_algorithm']: True,
            '+'.join(cfg['processing_jobs']): True}


FACETS = [Facet('jobs', lambda: gens.decoded(
    flow.CONFIG + 50 + 36 * MOST + nrmlgen.MODEL, case), check, quick=170, thorough=6000),
          Facet('large', lambda: gens.large(case, 12), check, quick=32, thorough=300)]
