import os
import shutil
import subprocess
import sys

import numpy as np

import cli
import flow
import gens
import nrmlgen
from core import Facet, Violation, require

RULE = """Catalogues of 1 to 56 events, source models of 1 to 3 zones among
other kinds of sources, or none, and configurations of preprocessing and
processing jobs with their parameters, with and without a stored completeness
table; run as from the command line, and some in a process of their own with
relative paths. The oracle applies the scientific functions step by step to the
catalogue and to the events inside each zone (exact point in polygon). Non-trivial: some
value of a source was computed."""
ASSUMPTIONS = ["at most one declustering job and one completeness job, as the sample "
               "configuration asks for",
               "the scientific functions themselves are decided by C13 to C28",
               "no magnitude errors where the result would be random",
               "the source model has an area source"]
MOST = 56

DEFAULT = {'nrml_id': 'MTK', 'source_model_id': 'MTK', 'area_source_id': 'MTK',
           'name': 'MTK', 'tectonic_region': 'MTK', 'srs': 'MTK', 'pos': [(0.0, 0.0)],
           'gr': (0.0, 0.0, 0.0, 0.0, 'MTK'), 'strike': 0.0, 'dip': 90.0, 'rake': 0.0,
           'magtype': 'MTK', 'mags': [6.5], 'depths': [5000.0], 'hypo': 5000.0}


def table(q):
    years = sorted((q.int(1890, 2008) for _ in range(q.int(1, 4))), reverse=True)
    m = q.choose([4.0, 4.5, 3.5])
    out = []
    for y in years:
        out.append([float(y), m])
        m = round(m + q.choose([0.5, 0.2, 1.0]), 1)
    return out


def case(d):
    here = flow.centres(d)
    c = {'config': flow.config(
        d.part(flow.CONFIG), proc=flow.PROC + flow.PROC[1:])}
    m = c['config']
    stored = table(d.part(24))
    c['table'] = stored if not m['preprocessing_jobs'] and d.chance(2, 3) else None
    c['apply'] = not d.chance(1, 10)
    c['store'] = d.bool()
    sm = not d.chance(1, 6)
    sigma = not ('MaximumMagnitude' in m['processing_jobs'] and flow.random_result(m))
    few = d.chance(1, 4)
    c['rows'] = flow.rows(d.part(flow.rows_size(MOST)), MOST,
                          here if few else here[:1], sigma,
                          least=1 if few else 30)
    c['model'] = flow.model(
        d.part(flow.MODEL), here if few else here[:1]) if sm else None
    return c


def prepared(c, name):
    folder = os.path.join(os.getcwd(), name)
    shutil.rmtree(folder, ignore_errors=True)
    os.mkdir(folder)
    flow.write_inputs(c, folder)
    cfg = flow.full_config(c, folder, apply_processing_jobs=c['apply'])
    if c['table']:
        np.savetxt(os.path.join(folder, 'table.csv'), np.array(c['table']),
                   fmt='%10.5f', delimiter=',')
    elif not c['config']['preprocessing_jobs']:
        cfg['completeness_table_file'] = None
    if not c['store']:
        cfg['pprocessing_result_file'] = None
    return folder, cfg


def expected(c):
    """The sources of the result, and how many jobs failed."""
    p = flow.preprocess(c, c['table'])
    if c['model']:
        sources = [(s['pos'], w) for s, w in zip(
            [s for s in c['model']['items'] if s['kind'] == 'area'],
            nrmlgen.expected(c['model']))]
    else:
        sources = [(None, dict(DEFAULT))]
    out, failed, done = [], 0, 0
    for positions, want in sources:
        events = p.working if positions is None else flow.inside(p.working, positions)
        if c['apply']:
            want['gr'], f = flow.process(c['config'], want['gr'], p.table, events)
            failed += len(f)
            done += len(c['config']['processing_jobs']) - len(f)
        out.append(want)
    return out, failed, done


def compare(path, want):
    require(os.path.exists(path), 'no result document')
    try:
        got = flow.read_result(path)
    except Exception as e:                   # noqa: BLE001
        raise Violation('the result cannot be read: %r' % e) from None
    require(len(got) == len(want), '%d sources instead of %d', len(got), len(want))
    for k, (g, w) in enumerate(zip(got, want)):
        diff = flow.source_difference(g, w)
        require(diff is None, 'source %d (%s): %s', k + 1, w['area_source_id'], diff)


def classes(c, want, failed, done):
    jobs = c['config']['preprocessing_jobs'] + c['config']['processing_jobs']
    return {'nontrivial': done > 0, 'failed job': failed > 0,
            'stored table': bool(c['table']), 'default source': not c['model'],
            'sources=%d' % len(want): True,
            '+'.join(jobs) or 'no jobs': True, 'processing off': not c['apply']}


def check(c):
    want, failed, done = expected(c)
    folder, cfg = prepared(c, 'c31')
    cli.write_config('config.yml', cfg)
    out = cli.run('-i', 'config.yml')
    if out.error is not None:
        raise Violation('the run raised %r' % out.error)
    compare(os.path.join(folder, 'result.xml'), want)
    return classes(c, want, failed, done)


def check_process(c):
    want, failed, done = expected(c)
    folder, cfg = prepared(c, 'c31p')
    for k in ('eq_catalog_file', 'pprocessing_result_file', 'completeness_table_file',
              'source_model_file', 'result_file'):
        cfg[k] = cfg[k] and os.path.basename(cfg[k])
    cli.write_config(os.path.join(folder, 'config.yml'), cfg)
    p = subprocess.run([sys.executable, '-B', cli.main_py(), '-i', 'config.yml'],
                       cwd=folder, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       universal_newlines=True)
    require(p.returncode == 0, 'main.py ended with %d: %s', p.returncode,
            p.stderr[-1500:])
    compare(os.path.join(folder, 'result.xml'), want)
    return classes(c, want, failed, done)


SIZE = flow.CONFIG + 24 + 10 + flow.rows_size(MOST) + flow.MODEL
FACETS = [Facet('run', lambda: gens.decoded(SIZE, case), check, quick=250, thorough=8000),
          Facet('process', lambda: gens.decoded(SIZE, case), check_process, quick=5,
                thorough=120),
          Facet('large', lambda: gens.large(case, 6), check, quick=48, thorough=300),
          Facet('larger', lambda: gens.large(case, 50), check, quick=8, thorough=80)]
