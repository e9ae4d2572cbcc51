import os
import shutil

import cli
import flow
import gens
from core import Facet, Violation, require

RULE = """Catalogues of 1 to 50 events, models of 1 to 3 zones or none, and
configurations whose preprocessing only declusters, with any processing, or also
determines completeness with the increment lock, with recurrence by maximum
likelihood; a run that stores its preprocessing followed by one that starts from
the stored files, and a run that only preprocesses before it. Non-trivial: the
preprocessing removes an event and a value is computed."""
ASSUMPTIONS = ["magnitudes have one decimal",
               "no magnitude errors where the result would be random"]
MOST = 50


def case(d):
    here = flow.centres(d)
    kind = d.choose(['decluster', 'stepp', 'both', 'stepp first'])
    pre = {'decluster': [['GardnerKnopoff'], ['Afteran']], 'stepp': [['Stepp']],
           'both': [['GardnerKnopoff', 'Stepp'], ['Afteran', 'Stepp']],
           'stepp first': [['Stepp', 'GardnerKnopoff'], ['Stepp', 'Afteran']]}[kind]
    c = {'config': flow.config(
        d.part(flow.CONFIG), pre=pre,
        proc=flow.PROC[1:] if kind == 'decluster' else [['Recurrence']])}
    m = c['config']
    if kind != 'decluster':
        m['Stepp']['increment_lock'] = True
        m['Recurrence']['recurrence_algorithm'] = 'MLE'
    sigma = not ('MaximumMagnitude' in m['processing_jobs'] and flow.random_result(m))
    c['split'] = d.bool()
    c['rows'] = flow.rows(d.part(flow.rows_size(MOST)), MOST, here[:1], sigma,
                          least=10)
    c['model'] = None if d.chance(1, 6) else flow.model(d.part(flow.MODEL),
                                                        here[:1])
    return c


def run(c, folder, **changes):
    cfg = flow.full_config(c, folder, **changes)
    cli.write_config('config.yml', cfg)
    out = cli.run('-i', 'config.yml')
    if out.error is not None:
        raise Violation('the run with %s raised %r' % (sorted(changes), out.error))
    try:
        return flow.read_result(cfg['result_file'])
    except Exception as e:                   # noqa: BLE001
        raise Violation('the result cannot be read: %r' % e) from None


def check(c):
    p = flow.preprocess(c)
    folder = os.path.join(os.getcwd(), 'c32')
    shutil.rmtree(folder, ignore_errors=True)
    os.mkdir(folder)
    flow.write_inputs(c, folder)
    first = run(c, folder)
    if c['split']:
        # the stored files of a run without processing
        for name in ('pre.csv', 'table.csv', 'result.xml'):
            os.remove(os.path.join(folder, name))
        run(c, folder, apply_processing_jobs=False)
    for name in ('pre.csv', 'table.csv'):
        require(os.path.exists(os.path.join(folder, name)), '%s was not written', name)
    second = run(c, folder, eq_catalog_file=os.path.join(folder, 'pre.csv'),
                 pprocessing_result_file=None, preprocessing_jobs=None,
                 result_file=os.path.join(folder, 'again.xml'))
    require(len(first) == len(second), '%d sources instead of %d', len(second), len(first))
    for k, (g, w) in enumerate(zip(second, first)):
        diff = flow.source_difference(g, w)
        require(diff is None, 'source %d: %s', k + 1, diff)
    before = [s for s in (c['model'] or {'items': []})['items'] if s['kind'] == 'area']
    computed = any(
        [float(s[f]) for f in ('a', 'b', 'mmin', 'mmax')] != list(w['gr'][:4])
        for s, w in zip(before, first)) if before else first[0]['gr'][:4] != (0, 0, 0, 0)
    jobs = c['config']['preprocessing_jobs']
    return {'nontrivial': computed and len(p.selected) < len(p.entries),
            '+'.join(jobs): True, 'stored by a run of its own': c['split'],
            'incomplete events': len(p.selected) < len(p.working)}


FACETS = [Facet('resume', lambda: gens.decoded(
    flow.CONFIG + 10 + flow.rows_size(MOST) + flow.MODEL, case), check, quick=140,
    thorough=5000),
          Facet('large', lambda: gens.large(case, 5), check, quick=40, thorough=300)]
