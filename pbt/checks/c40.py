import os
import re
import shutil
import subprocess
import sys

import numpy as np

import cli
import flow
import gens
import nrmlgen
from core import Facet, Violation, require

from mtoolkit.scientific.declustering import (afteran_decluster,
                                              gardner_knopoff_decluster)

RULE = """Catalogues of 1 to 40 events, some with every event in a cluster,
source models of 1 to 3 zones among other kinds of sources, or none, and
configurations of every algorithm, stored or not, run as from the command line
with and without -d, some in a process of their own. What the report has to say
is counted step by step from the catalogue. Non-trivial: -d, and two figures
besides the length of the catalogue are reported that are not zero."""
ASSUMPTIONS = ["a figure is found by the words that go with it: \"catalog length\", "
               "\"after declustering\", \"removed during declustering\", \"clusters\", "
               "\"into completeness\", \"stored\", \"removed after preprocessing\", "
               "\"inside the zone\" and the name of the zone, \"Bvalue\", \"Max magnitude\"",
               "a step is announced by a line with its name in capital letters only"]
MOST = 40
STEPS = {'GardnerKnopoff': 'GARDNER_KNOPOFF', 'Afteran': 'AFTERAN', 'Stepp': 'STEPP',
         'Recurrence': 'RECURRENCE', 'MaximumMagnitude': 'MAXIMUM_MAGNITUDE'}
NUMBER = r'[-+]?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?'


def case(d):
    here = flow.centres(d)
    c = {'config': flow.config(d.part(flow.CONFIG), proc=flow.PROC + flow.PROC[1:])}
    m = c['config']
    sigma = not ('MaximumMagnitude' in m['processing_jobs'] and flow.random_result(m))
    few = d.chance(1, 3)
    c['rows'] = flow.rows(d.part(flow.rows_size(MOST)), 8 if few else MOST,
                          here[:1], sigma, least=1 if few else 8)
    if d.chance(1, 3):
        # pairs: every event in a cluster
        out = []
        for r in c['rows'][:len(c['rows']) // 2 + 1]:
            other = list(r)
            other[gens.FIELDS.index('Mw')] = '4.0'
            out += [r, other]
        c['rows'] = out
    c['model'] = None
    c['detailed name'] = d.int(0, 3)
    if not d.chance(1, 5):
        c['model'] = flow.model(d.part(flow.MODEL), here[:1])
        for k, s in enumerate(s for s in c['model']['items'] if s['kind'] == 'area'):
            s['name'] = '%s %s' % (['Region', '%s area', 'A long name ' * 9, 'Zone  %d', 'x:y, z'][
                k * c['detailed name'] % 5], 'ABCDEFGHI'[k % 9] * (k // 9 + 1))
    c['apply'] = not d.chance(1, 8)
    c['store'] = not d.chance(1, 4)
    c['detailed'] = not d.chance(1, 6)
    return c


def clusters(c):
    """The number of clusters the last declustering finds, or None."""
    found = None
    p = flow.preprocess(c)
    for job in c['config']['preprocessing_jobs']:
        if job == 'GardnerKnopoff':
            v = gardner_knopoff_decluster(
                p.matrix.copy(), c['config'][job]['time_dist_windows'],
                c['config'][job]['foreshock_time_window'])
        elif job == 'Afteran':
            v = afteran_decluster(p.matrix.copy(), c['config'][job]['time_dist_windows'],
                                  c['config'][job]['time_window'])
        else:
            continue
        found = len(set(int(x) for x in v[0] if x != 0))
    return found


def expected(c):
    """The figures of the report in their order, as (words, numbers)."""
    p = flow.preprocess(c)
    total = len(p.matrix)
    out = [('catalog length', [total])]
    left = total
    for job in c['config']['preprocessing_jobs']:
        if job == 'Stepp':
            out.append(('into completeness', [left]))
        else:
            left = len(p.working)
            out += [('after declustering', [left]),
                    ('removed during declustering', [total - left]),
                    ('clusters', [clusters(c)])]
    if c['config']['preprocessing_jobs'] and c['store']:
        out += [('stored', [len(p.selected)]),
                ('removed after preprocessing', [total - len(p.selected)])]
    steps = list(c['config']['preprocessing_jobs'])
    if c['apply']:
        if c['model']:
            zones = [(s['name'], s['pos']) for s in c['model']['items']
                     if s['kind'] == 'area']
        else:
            zones = [(None, None)]
        for name, positions in zones:
            events = p.working
            if positions is not None:
                events = flow.inside(p.working, positions)
                out.append(('inside the zone %s' % name, [len(events)]))
            for job in c['config']['processing_jobs']:
                steps.append(job)
                if job == 'Recurrence':
                    v = flow.recurrence_values(c['config'], p.table, events)
                    words = 'bvalue'
                else:
                    v = flow.maximum_values(c['config'], events)
                    words = 'max magnitude'
                if v is not None:
                    out.append((words, v))
    return [STEPS[s] for s in steps], out


WORDS = ['catalog length', 'after declustering', 'removed during declustering',
         'clusters', 'into completeness', 'stored', 'removed after preprocessing',
         'inside the zone', 'bvalue', 'max magnitude']


def figures(text):
    """What a report says, in its order: (line, words, numbers)."""
    out = []
    for line in text.splitlines():
        low = line.lower()
        found = [w for w in WORDS if w in low]
        if not found:
            continue
        after = line[low.rindex(found[-1]) + len(found[-1]):]
        numbers = [float(x) for x in re.findall(r'(?<![\w.])' + NUMBER, after)]
        if numbers:
            out.append((line, numbers))
    return out


def announced(text):
    """The steps a report announces."""
    known = set(STEPS.values())
    return [line.strip() for line in text.splitlines() if line.strip() in known]


def close(got, want):
    return len(got) == len(want) and all(
        abs(g - w) <= 0.00051 + 1e-9 * abs(w) for g, w in zip(got, want))


def compare(where, text, steps, want, detailed):
    require(announced(text) == steps, '%s announces the steps %s instead of %s', where,
            announced(text), steps)
    got = figures(text)
    if not detailed:
        require(not got, '%s shows details that were not asked for: %s', where, got[:1])
        return
    k = 0
    for words, numbers in want:
        require(k < len(got) and words.lower() in got[k][0].lower(),
                '%s does not tell %r: %r comes instead', where, words, got[k:k + 1])
        require(close(got[k][1], numbers), '%s says %r, it is %s', where,
                got[k][0].strip(), numbers)
        k += 1
    require(k == len(got), '%s tells %r besides', where, got[k:])


def prepared(c, name):
    folder = os.path.join(os.getcwd(), name)
    shutil.rmtree(folder, ignore_errors=True)
    os.mkdir(folder)
    flow.write_inputs(c, folder)
    cfg = flow.full_config(c, folder, apply_processing_jobs=c['apply'])
    if not c['config']['preprocessing_jobs']:
        cfg['completeness_table_file'] = None
    if not c['store']:
        cfg['pprocessing_result_file'] = None
    cli.write_config(os.path.join(folder, 'config.yml'), cfg)
    return folder


def classes(c, steps, want):
    shown = [w for w in want[1:] if any(n != 0 for n in w[1])]
    return {'nontrivial': c['detailed'] and len(shown) > 1,
            'without details': not c['detailed'], 'default source': not c['model'],
            'every event in a cluster': any(
                w[0] == 'clusters' and w[1][0] for w in want) and all_clustered(c),
            'values': any(w[0] in ('bvalue', 'max magnitude') for w in want),
            '+'.join(steps) or 'no steps': True}


def all_clustered(c):
    p = flow.preprocess(c)
    return len(p.working) == clusters(c)


def text_of(path):
    with open(path) as f:
        return f.read()


def check(c):
    steps, want = expected(c)
    folder = prepared(c, 'c40')
    if os.path.exists('debug.log'):
        os.remove('debug.log')
    out = cli.run(*(['-d'] if c['detailed'] else []) + [
        '-i', os.path.join(folder, 'config.yml')])
    if out.error is not None:
        raise Violation('the run raised %r' % out.error)
    compare('the console', out.out + out.err, steps, want, c['detailed'])
    if c['detailed']:
        require(os.path.exists('debug.log'), 'no debug.log')
        compare('debug.log', text_of('debug.log'), steps, want, True)
    return classes(c, steps, want)


def check_process(c):
    steps, want = expected(c)
    folder = prepared(c, 'c40p')
    p = subprocess.run([sys.executable, '-B', cli.main_py(), '-i', 'config.yml']
                       + (['-d'] if c['detailed'] else []), cwd=folder,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       universal_newlines=True)
    require(p.returncode == 0, 'main.py ended with %d: %s', p.returncode, p.stdout[-1500:])
    compare('the console', p.stdout, steps, want, c['detailed'])
    if c['detailed']:
        path = os.path.join(folder, 'debug.log')
        require(os.path.exists(path), 'no debug.log')
        compare('debug.log', text_of(path), steps, want, True)
    return classes(c, steps, want)


SIZE = flow.CONFIG + 24 + flow.rows_size(MOST) + flow.MODEL
FACETS = [Facet('run', lambda: gens.decoded(SIZE, case), check, quick=200, thorough=6000),
          Facet('process', lambda: gens.decoded(SIZE, case), check_process, quick=5,
                thorough=120),
          Facet('large', lambda: gens.large(case, 6), check, quick=40, thorough=300)]
