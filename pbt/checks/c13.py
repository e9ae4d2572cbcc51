import decl
import gens
from core import Facet

RULE = """Catalogues of 1 to 36 events, most of them placed around an earlier
event at or near the limits of its space and time window (also same day, the
foreshock side, across the 180 degree meridian, chains), any row order, the
three windowing options and several foreshock proportions; the oracle is a
plain-Python Gardner-Knopoff on sets. Non-trivial: at least one cluster. Also
catalogues of up to 3000 events, copies of a small one far apart."""
ASSUMPTIONS = ["an event is not decided when its distance is within 1e-6 (relative) or its time "
               "within 1e-9 years of a window limit (the case is then left out)",
               "among events of equal magnitude any order of processing is right",
               "the Uhrhammer windows are those of the code (decided by C12)"]

FACETS = [Facet('clusters', lambda: gens.decoded(
    decl.SIZE, lambda d: decl.catalogue(d, 'Gardner-Knopoff')),
    lambda c: decl.decides('Gardner-Knopoff', c), quick=1000, thorough=30000),
          Facet('large', lambda: gens.large(
              lambda d: decl.catalogue(d, 'Gardner-Knopoff', True), 9),
              lambda c: decl.decides('Gardner-Knopoff', c), quick=48, thorough=300),
          Facet('tiled', lambda: gens.large(lambda d: decl.tiled(d, 'Gardner-Knopoff'), 1),
                lambda c: decl.decides_tiled('Gardner-Knopoff', c), quick=80, thorough=300)]
