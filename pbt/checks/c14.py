import decl
import gens
from core import Facet

RULE = """Catalogues of 1 to 36 events, most of them placed around an earlier
event at or near the limits of its space window and with time differences just
below and above the moving window, so that chains longer than the window and
their gaps are frequent, in any row order; the oracle is a plain-Python Afteran
on sets. Non-trivial: at least one cluster. Also
catalogues of up to 3000 events, copies of a small one far apart."""
ASSUMPTIONS = ["an event is not decided when its distance is within 1e-6 (relative) of a window "
               "limit or its time is at the limit (the case is then left out), except that "
               "two events a year apart are within a window of 365 days",
               "among events of equal magnitude any order of processing is right",
               "the Uhrhammer windows are those of the code (decided by C12)"]

FACETS = [Facet('clusters', lambda: gens.decoded(
    decl.SIZE, lambda d: decl.catalogue(d, 'Afteran')),
    lambda c: decl.decides('Afteran', c), quick=1000, thorough=30000),
          Facet('large', lambda: gens.large(
              lambda d: decl.catalogue(d, 'Afteran', True), 9),
              lambda c: decl.decides('Afteran', c), quick=48, thorough=300),
          Facet('tiled', lambda: gens.large(lambda d: decl.tiled(d, 'Afteran'), 1),
                lambda c: decl.decides_tiled('Afteran', c), quick=80, thorough=300)]
