import os
import shutil

import cli
import core
import flow
import gens
import nrmlgen
import pristine
from core import Facet, Violation, require

RULE = """Catalogues of 1 to 36 events and models of 2 to 4 zones, overlapping,
equal or far from every event, some without computable values; the run is
repeated with the zones in another order, with some of them removed, with one
moved away from all events, or unchanged, and every zone left is compared,
half of the time in a process of its own; zones may differ in one vertex only.
Non-trivial: a zone that is in both has a computed value."""
ASSUMPTIONS = ["no magnitude errors where the result would be random"]
MOST = 36


def case(d):
    here = flow.centres(d)
    c = {'config': flow.config(d.part(flow.CONFIG), proc=flow.PROC[1:])}
    m = c['config']
    sigma = not ('MaximumMagnitude' in m['processing_jobs'] and flow.random_result(m))
    c['rows'] = flow.rows(d.part(flow.rows_size(MOST)), MOST, here[:1], sigma,
                          least=12)
    c['model'] = flow.model(d.part(flow.MODEL), here[:1], lo=2, hi=4)
    areas = [s for s in c['model']['items'] if s['kind'] == 'area']
    if d.chance(1, 4):
        areas[-1]['pos'] = areas[0]['pos']
    if d.chance(1, 4):
        away(areas[d.below(len(areas))])
    c['how'] = d.choose(['order', 'remove', 'away', 'again', 'order', 'remove'])
    c['own'] = d.bool()
    c['keys'] = [d.byte() for _ in c['model']['items']]
    return c


def away(source):
    source['pos'] = [['100.0', '-40.0'], ['101.0', '-40.0'], ['101.0', '-39.0']]


def changed(c):
    """The other model."""
    m = dict(c['model'])
    keys = c['keys']
    items = list(m['items'])
    if c['how'] == 'order':
        items = [items[i] for i in sorted(range(len(items)), key=lambda i: (keys[i], -i))]
    elif c['how'] == 'remove':
        kept = [s for s, k in zip(items, keys) if k < 128]
        if not any(s['kind'] == 'area' for s in kept):
            kept.append([s for s in items if s['kind'] == 'area'][keys[0] % 2])
        items = kept
    elif c['how'] == 'away':
        at = [i for i, s in enumerate(items) if s['kind'] == 'area']
        i = at[keys[0] % len(at)]
        items[i] = dict(items[i])
        away(items[i])
    m['items'] = items
    return m


def run(argument):
    """'' or what was raised."""
    os.chdir(argument['folder'])
    with core.quiet():
        error = cli.run('-i', argument['config']).error
    return '' if error is None else repr(error)


def result(c, name, own=False):
    folder = os.path.join(os.getcwd(), 'c30', name)
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(folder)
    flow.write_inputs(c, folder)
    cfg = flow.full_config(c, folder)
    if not c['config']['preprocessing_jobs']:
        cfg['completeness_table_file'] = None
    cli.write_config('config.yml', cfg)
    if own:
        error = pristine.call({'folder': os.getcwd(), 'config': 'config.yml'})
    else:
        error = cli.run('-i', 'config.yml').error
    if error:
        raise Violation('the run raised %r' % error)
    try:
        got = flow.read_result(os.path.join(folder, 'result.xml'))
    except Exception as e:                   # noqa: BLE001
        raise Violation('the result cannot be read: %r' % e) from None
    return {s['area_source_id']: s for s in got}


def check(c):
    pristine.start(run)
    flow.preprocess(c)                       # discards what cannot run
    first = result(c, 'a')
    other = dict(c, model=changed(c))
    second = result(other, 'b', c['own'])
    before = {s['area_source_id']: s['gr'] for s in nrmlgen.expected(c['model'])}
    require(set(first) == set(before), 'sources %s instead of %s', sorted(first),
            sorted(before))
    want = [s['id'] for s in other['model']['items'] if s['kind'] == 'area']
    require(list(second) == want, 'sources %s instead of %s', list(second), want)
    positions = {s['id']: s['pos'] for s in c['model']['items'] if s['kind'] == 'area'}
    some = False
    for s in other['model']['items']:
        if s['kind'] == 'area' and positions[s['id']] == s['pos']:
            diff = flow.source_difference(second[s['id']], first[s['id']])
            require(diff is None, 'source %s (%s): %s', s['id'], c['how'], diff)
            some = some or first[s['id']]['gr'] != before[s['id']]
    return {'nontrivial': some and (len(second) > 1 or c['how'] == 'remove'),
            c['how']: True, 'zones=%d' % len(first): True,
            'second run in a process of its own': c['own'],
            'zone left as it was': any(first[k]['gr'] == before[k] for k in first)}


FACETS = [Facet('zones', lambda: gens.decoded(
    flow.CONFIG + flow.rows_size(MOST) + flow.MODEL + 30, case), check, quick=140,
    thorough=5000),
          Facet('large', lambda: gens.large(case, 5), check, quick=32, thorough=200)]
