import os

import numpy as np

import gens
import nrmlgen
from core import Facet, code, raises, require

from nrml.nrml_xml import SCHEMA_DIR, get_data_path
from nrml.reader import NRMLReader
from nrml.writer import AreaSourceWriter

RULE = """Lists of 1 to 4 area sources with schema-valid values of any
precision (numbers as Python or numpy floats), different in every attribute,
written over a file that may hold a longer document, maybe twice with one
writer, to plain, relative and absolute paths; and paths in directories that do
not exist. Non-trivial: two sources or more, or a refused path."""
ASSUMPTIONS = ["all sources of a document have the same document and source "
               "model id", "numbers are finite"]

SCHEMA = get_data_path('nrml.xsd', SCHEMA_DIR)
_schema = []


def valid(path):
    from lxml import etree
    if not _schema:
        _schema.append(etree.XMLSchema(etree.parse(SCHEMA)))
    with open(path, 'rb') as f:
        document = etree.parse(f)
    if _schema[0].validate(document):
        return None
    return str(_schema[0].error_log.last_error)


PRECISE = [('a', -1e6, 1e6), ('b', 0.0, 3.0), ('mmin', 0.0, 6.0),
           ('mmax', 4.0, 10.0), ('strike', 0.0, 360.0), ('dip', 0.0, 90.0),
           ('rake', -180.0, 180.0), ('hypo', 0.0, 1e5)]


def model(d):
    m = nrmlgen.model(d.part(nrmlgen.MODEL), others=False)
    old = nrmlgen.model(d.part(nrmlgen.MODEL), others=False)
    for s in m['items']:
        for k, lo, hi in PRECISE:
            if d.chance(1, 2):
                s[k] = repr(d.choose([d.float(lo, hi)] * 5
                                     + [max(lo, 1e-7), 0.1 + 0.2, 1e-300]))
        for k in ('mags', 'depths'):
            if d.chance(1, 2):
                s[k] = [repr(d.float(0, 10000)) for _ in s[k]]
    return {'model': m, 'old': old if d.bool() else None,
            'same_writer': d.bool(), 'numpy': d.bool(),
            'path': d.choose(['c08.xml', './c08.xml', 'out/c08.xml', '/c08.xml',
                              'out/../c08.xml', 'out /c08.xml', ' out/c 08.xml',
                              'o\xfat/c08.xml'])}


def long_model(d):
    return dict(model(d), count=gens.many(d, 1500))


def check(case):
    if 'count' in case:
        case = dict(case, model=nrmlgen.cycled(case['model'], case['count']))
    for folder in ('out', 'out ', ' out', 'o\xfat'):
        os.makedirs(folder, exist_ok=True)
    m = case['model']
    path = case['path']
    if path.startswith('/'):
        path = os.getcwd() + path
    if os.path.exists(path):
        os.remove(path)
    number = np.float64 if case['numpy'] else float
    sources = [nrmlgen.area_source(s, m, number) for s in m['items']]
    want = nrmlgen.expected(m)
    with code('writing'):
        writer = None
        if case['old']:
            writer = AreaSourceWriter(path)
            writer.serialize([nrmlgen.area_source(s, case['old'])
                              for s in case['old']['items']])
        if writer is None or not case['same_writer']:
            writer = AreaSourceWriter(path)
        writer.serialize(sources)
        del writer
        for i, (s, w) in enumerate(zip(sources, want)):
            diff = nrmlgen.difference(nrmlgen.attributes(s), w)
            require(diff is None, 'writing changed source %d: %s', i + 1, diff)
        require(os.path.exists(path), 'no file')
        problem = valid(path)
        require(problem is None, 'not valid against the schema: %s', problem)
        got = list(NRMLReader(path, SCHEMA).read())
        require(len(got) == len(want), '%d sources read back of %d', len(got),
                len(want))
        for i, (g, w) in enumerate(zip(got, want)):
            diff = nrmlgen.difference(nrmlgen.attributes(g), w)
            require(diff is None, 'source %d: %s', i + 1, diff)
            require(g == sources[i] and not g != sources[i],
                    'source %d is not equal to the one read back', i + 1)
    os.remove(path)
    return {'nontrivial': len(want) > 1, 'replaces': bool(case['old']),
            'sources': len(want)}


def nowhere(d):
    def part(d):
        return d.choose('abc_') + ''.join(
            d.choose('abc.-_ ') for _ in range(d.below(6)))
    return {'absolute': d.bool(), 'exists': d.bool(), 'parts': d.list(2, 4, 20, part)}


def check_nowhere(case):
    path = os.path.join('none', *case['parts'])
    if case['exists']:
        os.makedirs(os.path.join('some', *case['parts'][:-2]), exist_ok=True)
        path = os.path.join('some', *case['parts'][:-2], 'not there', 'x')
    if case['absolute']:
        path = os.path.join(os.getcwd(), path)
    raises((IOError,), lambda: AreaSourceWriter(path))
    require(not os.path.exists(os.path.dirname(path)), 'made the directory')
    return {'absolute': case['absolute']}


FACETS = [Facet('round trip', lambda: gens.decoded(2 * nrmlgen.MODEL + 600, model),
                check, quick=200, thorough=5000),
          Facet('no directory', lambda: gens.decoded(100, nowhere), check_nowhere,
                quick=150, thorough=1000),
          Facet('large', lambda: gens.large(model, 50), check, quick=20, thorough=200),
          Facet('long', lambda: gens.large(long_model, 1), check, quick=8, thorough=50)]
