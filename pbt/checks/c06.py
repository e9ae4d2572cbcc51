import os

import gens
import nrmlgen
from core import Facet, code, require

from nrml.nrml_xml import SCHEMA_DIR, get_data_path
from nrml.reader import NRMLReader

RULE = """Schema-valid source models of 1 to 4 area sources with up to four
point and fault sources anywhere between them, all values different, numbers in
many spellings, names with markup and other characters, the namespaces under
several prefixes, with and without comments, descriptions, configuration,
white space. Non-trivial: two area sources or more."""
ASSUMPTIONS = ["every area source has a name, exactly one truncated "
               "Gutenberg-Richter model with its type, and a reference system",
               "boundaries have no interior rings"]

SCHEMA = get_data_path('nrml.xsd', SCHEMA_DIR)


def long_model(d):
    return dict(nrmlgen.model(d), count=gens.many(d, 2000))


def check(case):
    if 'count' in case:
        case = nrmlgen.cycled(case, case['count'])
    text = nrmlgen.xml(case)
    with open('c06.xml', 'wb') as f:
        f.write(text)
    want = nrmlgen.expected(case)
    with code('reading a valid source model'):
        got = list(NRMLReader('c06.xml', SCHEMA).read())
        require(len(got) == len(want), '%d sources for %d elements',
                len(got), len(want))
        for i, (g, w) in enumerate(zip(got, want)):
            diff = nrmlgen.difference(nrmlgen.attributes(g), w)
            require(diff is None, 'source %d: %s', i + 1, diff)
    os.remove('c06.xml')
    return {'nontrivial': len(want) > 1, 'areas': len(want),
            'others': len(case['items']) > len(want)}


FACETS = [Facet('read', lambda: gens.decoded(nrmlgen.MODEL, nrmlgen.model), check,
                quick=250, thorough=5000),
          Facet('large', lambda: gens.large(nrmlgen.model, 60), check, quick=24, thorough=300),
          Facet('long', lambda: gens.large(long_model, 1), check, quick=10, thorough=60)]
