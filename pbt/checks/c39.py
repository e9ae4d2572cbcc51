import numpy as np

import gens
import nrmlgen
from core import Facet, code, require

from mtoolkit import source_model as sm
from mtoolkit.workflow import PipeLine

RULE = """Pairs of area sources made separately from one description, equal or
with one described value changed (each attribute, a coordinate, a number of a list,
one more or less of them, two exchanged), some with values not set; and
pairs of pipelines of 0 to 6 of 4 jobs. Non-trivial: every pair."""
ASSUMPTIONS = ["sources are compared with sources, pipelines with pipelines"]

TEXTS = ['nrml_id', 'source_model_id', 'area_source_id', 'name', 'tectonic_region',
         'srs', 'magtype', 'type']
NUMBERS = ['a', 'b', 'mmin', 'mmax', 'strike', 'dip', 'rake', 'hypo']
ATTRIBUTES = ['nrml_id', 'source_model_id', 'area_source_id', 'name', 'tectonic_region',
              'area_boundary', 'rupture_rate_model', 'rupture_depth_dist',
              'hypocentral_depth']


def case(d):
    m = nrmlgen.model(d.part(nrmlgen.MODEL), 1, 1, False)
    how = d.choose(['same', 'same', 'text', 'text', 'number', 'number', 'element', 'length',
                    'order', 'unset'])
    return {'model': m, 'how': how, 'text': d.choose(TEXTS), 'number': d.choose(NUMBERS),
            'list': d.choose(['pos', 'mags', 'depths']), 'at': d.byte(), 'with': d.byte(),
            'as': d.choose(['float', 'int', 'numpy']), 'add': d.choose(['1e-9', '0.5', '-1', '100']), 'character': d.choose('x A.'),
            'attribute': d.choose(ATTRIBUTES), 'both': d.chance(1, 4)}


def changed(c):
    """The description of the other source; the same values if nothing can be
    changed."""
    m = dict(c['model'])
    s = dict(m['items'][0])
    if c['how'] == 'text':
        k = c['text']
        if k in ('nrml_id', 'source_model_id'):
            k = {'nrml_id': 'nrml', 'source_model_id': 'sm'}[k]
            m[k] += c['character']
        else:
            k = {'area_source_id': 'id', 'tectonic_region': 'region'}.get(k, k)
            s[k] += c['character']
    elif c['how'] == 'number':
        k = c['number']
        s[k] = repr(float(s[k]) + float(c['add']))
    elif c['how'] in ('element', 'length', 'order'):
        k = c['list']
        v = [list(x) if k == 'pos' else x for x in s[k]]
        i, j = c['at'] % len(v), c['with'] % len(v)
        if c['how'] == 'order':
            v[i], v[j] = v[j], v[i]
        elif c['how'] == 'length':
            if c['with'] % 2:
                v.append(v[i])
            else:
                del v[-1]
        elif k == 'pos':
            v[i][c['with'] % 2] = repr(float(v[i][c['with'] % 2]) + float(c['add']))
        else:
            v[i] = repr(float(v[i]) + float(c['add']))
        s[k] = v
    m['items'] = [s]
    return m


def whole(text):
    v = float(text)
    return int(v) if v == int(v) else v


def check(c):
    m, n = c['model'], changed(c)
    s, t = m['items'][0], n['items'][0]
    with code('making sources'):
        first, second = nrmlgen.area_source(s, m), nrmlgen.area_source(
            t, n, {'int': whole, 'numpy': np.float64}.get(c['as'], float))
    same = nrmlgen.as_read(s, m) == nrmlgen.as_read(t, n)
    if c['how'] == 'unset':
        empty = sm.AreaSource()
        setattr(second, c['attribute'], getattr(empty, c['attribute']))
        same = c['both']
        if c['both']:
            setattr(first, c['attribute'], getattr(empty, c['attribute']))
    with code('comparing sources'):
        seen = [bool(first == second), not first != second, bool(second == first),
                not second != first]
        own = [first == first, not first != first]
    require(seen == [same] * 4, 'sources with %s: ==, not != (both ways) are %s', c['how'],
            seen)
    require(all(own), 'a source is not equal to itself')
    return {c['how']: True, 'equal': same, c['as']: True}


def read(context):
    pass


def store(context):
    pass


def plot(context):
    pass


JOBS = [read, store, plot, print]


def pipelines(d):
    first = d.list(0, 6, 2, lambda q: q.below(4))
    second = list(first) if d.bool() else d.list(0, 6, 2, lambda q: q.below(4))
    how = d.choose(['', '', 'swap', 'drop', 'add', 'change'])
    i, j, k = d.byte(), d.byte(), d.below(4)
    if how == 'add':
        second.insert(i % (len(second) + 1), k)
    elif how and second:
        i, j = i % len(second), j % len(second)
        if how == 'swap':
            second[i], second[j] = second[j], second[i]
        elif how == 'drop':
            del second[i]
        else:
            second[i] = k
    return {'first': first, 'second': second, 'given': d.bool()}


def pipeline(jobs, given):
    if given:
        return PipeLine([JOBS[k] for k in jobs])
    p = PipeLine()
    for k in jobs:
        p.add_job(JOBS[k])
    return p


def check_pipelines(c):
    with code('making pipelines'):
        first, second = pipeline(c['first'], True), pipeline(c['second'], c['given'])
        seen = [bool(first == second), not first != second, bool(second == first)]
    same = c['first'] == c['second']
    require(seen == [same] * 3, 'pipelines of %s and %s: ==, not !=, == are %s', c['first'],
            c['second'], seen)
    ran = []
    with code('running'):
        p = PipeLine([lambda context, k=k: ran.append((k, context)) for k in c['second']])
        p.run(c)
    require(ran == [(k, c) for k in c['second']], 'ran %s', ran)
    return {'equal': same, 'empty': not c['first']}


FACETS = [Facet('sources', lambda: gens.decoded(nrmlgen.MODEL + 42, case), check, quick=800,
                thorough=20000),
          Facet('large', lambda: gens.large(case, 60), check, quick=60, thorough=400),
          Facet('pipelines', lambda: gens.decoded(50, pipelines), check_pipelines,
                quick=800, thorough=20000)]
