import os
import shutil

import numpy as np

import cli
import flow
import gens
from core import Facet, Violation, code, require

from mtoolkit.eqcatalog import EqEntryReader

RULE = """Catalogues of 1 to 45 events with clusters, blank and invalid
optional fields, and every sequence of at most one declustering and one
completeness job with their parameters, run from the command line interface; up to 12000 events;
stored files that may exist before. The oracle puts together the selection from
the configured functions. Non-trivial: some event kept and some not."""
ASSUMPTIONS = ["at most one declustering job and one completeness job, as the sample "
               "configuration asks for",
               "the declustering, completeness and selection functions themselves are "
               "decided by C13 to C18"]
MOST = 45


def case(d):
    here = flow.centres(d)
    return {'config': flow.config(d.part(flow.CONFIG), pre=flow.PRE[1:]),
            'old': d.bool(), 'store': not d.chance(1, 12),
            'quote': d.bool(),
            'rows': flow.rows(d, MOST, here)}


def many(d):
    here = flow.centres(d)
    return {'config': flow.config(d, pre=[['Stepp']]), 'old': False, 'store': True,
            'quote': d.bool(), 'rows': flow.rows(d, MOST, here),
            'count': d.choose([12000, d.int(1, 12000)])}


def check(c):
    if 'count' in c:
        c = dict(c, rows=gens.cycled(c['rows'], c['count']))
    p = flow.preprocess(c)
    folder = os.path.join(os.getcwd(), 'c19')
    shutil.rmtree(folder, ignore_errors=True)
    os.mkdir(folder)
    flow.write_inputs(c, folder)
    cfg = flow.full_config(c, folder, apply_processing_jobs=False)
    pre, table = os.path.join(folder, 'pre.csv'), os.path.join(folder, 'table.csv')
    if c['old']:
        for path in (pre, table):
            flow.write_text(path, '1,2\n' * 200)
    if not c['store']:
        cfg['pprocessing_result_file'] = None
    cli.write_config('config.yml', cfg)
    out = cli.run('-i', 'config.yml')
    if out.error is not None:
        raise Violation('the run raised %r' % out.error)
    if not c['store']:
        for path in (pre, table):
            if c['old']:
                with open(path) as f:
                    require(f.read() == '1,2\n' * 200, 'wrote %s', path)
            else:
                require(not os.path.exists(path), 'wrote %s', path)
        return {'nontrivial': False, 'nothing to store': True}
    for path in (pre, table):
        require(os.path.exists(path), '%s was not written', os.path.basename(path))
    want = [p.entries[i] for i in p.selected]
    try:
        header, got = flow.read_stored(pre)
    except (gens.Invalid, IndexError, UnicodeError) as e:
        raise Violation('the stored catalogue is not valid: %r' % e) from None
    require(header == gens.FIELDS, 'header %s', header)
    require(len(got) == len(want), '%d events are stored instead of %d', len(got),
            len(want))
    for k, (g, w) in enumerate(zip(got, want)):
        diff = gens.same_entry(g, w)
        require(diff is None, 'stored event %d: %s', k + 1, diff)
    try:
        rows = flow.read_table(table)
    except ValueError as e:
        raise Violation('the stored table is not valid: %s' % e) from None
    require(len(rows) == len(p.table), '%d rows are stored instead of %d', len(rows),
            len(p.table))
    for g, w in zip(rows, p.table):
        require(len(g) == 2 and abs(g[0] - w[0]) <= 5.1e-6 and abs(g[1] - w[1]) <= 5.1e-6,
                'stored table row %s instead of %s', g, list(w))
    with code('reading the stored catalogue'):
        with open(pre) as f:
            again = EqEntryReader(f).read_eq_catalog()
    require(len(again) == len(want) and all(
        gens.same_entry(g, w) is None for g, w in zip(again, want)),
        'the stored catalogue reads back differently')
    jobs = c['config']['preprocessing_jobs']
    incomplete = any(p.flags[i] == 0 and i not in p.selected
                     for i in range(len(p.entries)))
    return {'nontrivial': 0 < len(want) < len(p.entries), '+'.join(jobs): True,
            'incomplete events': incomplete, 'replaces files': c['old'],
            'declustered events': bool(np.any(p.flags != 0))}


FACETS = [Facet('stored', lambda: gens.decoded(
    flow.CONFIG + flow.rows_size(MOST) + 20, case), check, quick=250, thorough=8000),
          Facet('large', lambda: gens.large(case, 8), check, quick=40, thorough=300),
          Facet('larger', lambda: gens.large(case, 60), check, quick=8, thorough=80),
          Facet('many', lambda: gens.large(many, 1), check, quick=4, thorough=40)]
