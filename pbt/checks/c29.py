import os
import shutil

import numpy as np

import cli
import flow
import gens
from core import Facet, Violation, code, require

from mtoolkit.catalog_filter import CatalogFilter, SourceModelCatalogFilter
from mtoolkit.workflow import Context, PreprocessingBuilder, ProcessingBuilder, Workflow

RULE = """Configurations with any sequence of 0 to 5 preprocessing jobs and 0 to
4 processing jobs, some repeated, some unknown at any position, with and without
source model, result file, stored table, processing and the parameters of jobs
that are not run. The scientific functions
are replaced by recorders that return values of their own; whole runs from the
command line for configurations with unknown jobs. Non-trivial: two jobs or
more, or an unknown one."""
ASSUMPTIONS = ["preprocessing jobs are looked for in the preprocessing list and "
               "processing jobs in the processing list",
               "with preprocessing jobs and a result file, a completeness table file "
               "is given"]
MOST = 20
JOBS = ['GardnerKnopoff', 'Afteran', 'Stepp', 'Recurrence', 'MaximumMagnitude']
UNKNOWN = ['Unknown', 'gardnerknopoff', 'GardnerKnopoff ', 'Reasenberg', 'STEPP',
           'recurrence', '', 'None']


def jobs(q, known, most, wrong):
    n = q.choose([0, 1, 1, 2, 2, 2] + list(range(most + 1)))
    out = [q.choose(known) for _ in range(most)][:n]
    name, at = q.choose(UNKNOWN), q.byte()
    if wrong:
        out.insert(at % (len(out) + 1), name)
    return out


def case(d):
    here = flow.centres(d)
    wrong = d.choose([''] * 7 + ['pre', 'proc', 'both'])
    sm = not d.chance(1, 4)
    c = {'config': flow.config(d.part(flow.CONFIG)),
         'pre': jobs(d.part(12), ['GardnerKnopoff', 'Afteran', 'Stepp'], 5,
                     wrong in ('pre', 'both')),
         'proc': jobs(d.part(12), ['Recurrence', 'MaximumMagnitude'], 4,
                      wrong in ('proc', 'both')),
         'wrong': bool(wrong), 'store': not d.chance(1, 4),
         'table': not d.chance(1, 4), 'apply': not d.chance(1, 4),
         'old': d.chance(1, 4), 'rows': flow.rows(d.part(flow.rows_size(MOST)), MOST,
                                                  here, least=4),
         'model': flow.model(d.part(flow.MODEL), here, lo=2) if sm else None}
    if not wrong and d.chance(1, 4):
        c.update(pre=[], table=True, apply=True)
        c['proc'] = c['proc'] or ['Recurrence']
    if c['pre'] and c['store']:
        c['table'] = True
    c['omit'] = [j for j in JOBS if d.chance(1, 2) and j not in c['pre'] + c['proc']]
    return c


def prepared(c):
    folder = os.path.join(os.getcwd(), 'c29')
    shutil.rmtree(folder, ignore_errors=True)
    os.mkdir(folder)
    flow.write_inputs(c, folder)
    cfg = flow.full_config(c, folder, preprocessing_jobs=c['pre'] or None,
                           processing_jobs=c['proc'] or None,
                           apply_processing_jobs=c['apply'])
    if not c['store']:
        cfg['pprocessing_result_file'] = None
    if not c['table']:
        cfg['completeness_table_file'] = None
    elif not c['pre']:
        flow.write_text(os.path.join(folder, 'table.csv'), TABLE)
    cli.write_config(os.path.join(folder, 'config.yml'), cfg)
    return folder


TABLE = '1912.00000,   4.75000\n1905.00000,   5.25000\n'


def snapshot(folder):
    out = {}
    for name in sorted(os.listdir(folder)):
        with open(os.path.join(folder, name), 'rb') as f:
            out[name] = f.read()
    return out


def check(c):
    folder = prepared(c)
    pre, table = os.path.join(folder, 'pre.csv'), os.path.join(folder, 'table.csv')
    if c['old'] and c['store']:
        flow.write_text(pre, 'old\n')
    before = snapshot(folder)
    calls, tables, state = [], [], {}

    def note(name):
        calls.append(name)
        k = len(calls)
        if name in ('GardnerKnopoff', 'Afteran', 'Stepp') and snapshot(folder) != before:
            state['early'] = name
        return k

    def declustering(name):
        def call(catalogue, *args, **kw):
            note(name)
            n = len(catalogue)
            require(n == len(c['rows']), '%s was given %d of %d events', name, n,
                    len(c['rows']))
            return np.zeros(n), np.array(catalogue), np.zeros(n)
        return call

    def stepp(*args, **kw):
        k = note('Stepp')
        tables.append(np.array([[1930.0 + k, 4.0 + k], [1920.0 - k, 5.0 + k]]))
        return tables[-1]

    def recurrence(year, mw, completeness, *args, **kw):
        k = note('Recurrence')
        state.setdefault('tables', []).append(np.array(completeness))
        return 0.5 + k / 128.0, 0.1, 2.0 + k, 0.2

    def maximum(*args, **kw):
        k = note('MaximumMagnitude')
        return 6.0 + k / 128.0, 0.1

    with code('the configuration'):
        context = Context(os.path.join(folder, 'config.yml'))
    context.map_sc.update(
        gardner_knopoff=declustering('GardnerKnopoff'), afteran=declustering('Afteran'),
        stepp=stepp, recurrence=recurrence, maximum_magnitude=maximum)

    def run():
        first = PreprocessingBuilder().build(context.config)
        second = ProcessingBuilder().build(context.config)
        keep = CatalogFilter(SourceModelCatalogFilter()) if c['model'] else CatalogFilter()
        Workflow(first, second).start(context, keep)

    if c['wrong']:
        try:
            run()
        except Violation:
            raise
        except Exception:                    # noqa: BLE001
            pass
        else:
            raise Violation('jobs %s and %s were not refused' % (c['pre'], c['proc']))
        require(not calls, '%s ran before the unknown job was refused', calls)
        require(snapshot(folder) == before, 'files were written before the refusal')
        return {'nontrivial': True, 'unknown job': True}
    with code('the run'):
        run()

    entries = [gens.expected_entry(r) for r in c['rows']]
    matrix = np.array([[e[f] for f in ('year', 'month', 'day', 'longitude', 'latitude',
                                       'Mw', 'sigmaMw')] for e in entries], dtype=float)
    if c['model']:
        sources = [s for s in c['model']['items'] if s['kind'] == 'area']
        filled = [len(flow.inside(matrix, s['pos'])) > 0 for s in sources]
    else:
        sources, filled = [None], [True]
    want = list(c['pre'])
    if c['apply']:
        for f in filled:
            if f:
                want += c['proc']
    require(calls == want, 'ran %s instead of %s', calls, want)
    require('early' not in state, 'files were written before %s', state.get('early'))

    # storing
    after = snapshot(folder)
    storing = bool(c['pre']) and c['store']
    for name, path in (('pre.csv', pre), ('table.csv', table)):
        if storing:
            require(after.get(name) is not None and after[name] != before.get(name),
                    '%s was not written', name)
        else:
            require(after.get(name) == before.get(name), '%s was written', name)

    # which table the processing saw
    if tables:
        expected = tables[-1]
    elif not c['pre'] and c['table']:
        expected = np.array([[1912, 4.75], [1905, 5.25]])
    else:
        expected = np.array([[matrix[:, 0].min(), matrix[:, 5].min()]])
    for t in state.get('tables', []):
        require(t.shape == expected.shape and np.array_equal(t, expected),
                'completeness table %s instead of %s', t.tolist(), expected.tolist())
    if storing:
        stored = np.array(flow.read_table(table))
        require(stored.shape == expected.shape
                and np.all(abs(stored - expected) <= 5.1e-6),
                'table %s stored instead of %s', stored.tolist(), expected.tolist())

    # every source got the values of its calls
    got = context.sm_definitions
    require(len(got) == len(sources), '%d sources instead of %d', len(got), len(sources))
    k = len(c['pre'])
    for i, (g, s) in enumerate(zip(got, sources)):
        t = g.rupture_rate_model.truncated_gutenberg_richter
        if s is None:
            values = [0.0, 0.0, 0.0, 0.0]
            require((g.area_source_id, g.name) == ('MTK', 'MTK'),
                    'source %s is not the default one', g.area_source_id)
        else:
            values = [float(s[f]) for f in ('a', 'b', 'mmin', 'mmax')]
            require(g.area_source_id == s['id'], 'source %d is %s instead of %s', i + 1,
                    g.area_source_id, s['id'])
        if c['apply'] and filled[i]:
            for job in c['proc']:
                k += 1
                if job == 'Recurrence':
                    values[0], values[1] = 2.0 + k, 0.5 + k / 128.0
                    values[2] = c['config']['Recurrence']['reference_magnitude']
                else:
                    values[3] = 6.0 + k / 128.0
        seen = [t.a_value, t.b_value, t.min_magnitude, t.max_magnitude]
        require(seen == values, 'source %d has %s instead of %s', i + 1, seen, values)
    return {'nontrivial': len(want) > 1, 'stores': storing,
            'repeated job': len(set(c['pre'])) < len(c['pre']),
            'stored table': not c['pre'] and c['table'] and bool(state.get('tables')),
            'default source': not c['model'], 'no processing': not c['apply'],
            'several sources': sum(filled) > 1}


def unknown(d):
    c = case(d)
    if not c['wrong']:
        c['wrong'] = True
        which = 'pre' if d.bool() else 'proc'
        c[which].insert(d.below(len(c[which]) + 1), 'Unknown')
    return c


def check_unknown(c):
    folder = prepared(c)
    before = snapshot(folder)
    out = cli.run('-i', os.path.join(folder, 'config.yml'))
    require(out.error is not None, 'jobs %s and %s were not refused', c['pre'], c['proc'])
    require(snapshot(folder) == before, 'files were written before the refusal')
    return {'processing off': not c['apply'],
            'in the second list only': all(j in flow.full_config(c, folder)
                                           for j in c['pre'])}


SIZE = flow.CONFIG + 60 + flow.rows_size(MOST) + flow.MODEL
FACETS = [Facet('jobs', lambda: gens.decoded(SIZE, case), check, quick=600,
                thorough=15000),
          Facet('unknown', lambda: gens.decoded(SIZE, unknown), check_unknown, quick=120,
                thorough=3000),
          Facet('large', lambda: gens.large(case, 6), check, quick=48, thorough=300)]
