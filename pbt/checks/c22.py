from fractions import Fraction

import numpy as np

import gens
from core import Facet, code, raises, require

from mtoolkit.scientific.recurrence import weichert_prep

RULE = """1 to 40 events with magnitudes on bin limits, completeness tables of 1
to 6 rows in any order with years and magnitudes on, below and above those of
the events and bins, several magnitude and time windows; exact counting on
rational numbers as the oracle; and tables of mismatched lengths. Non-trivial:
some event removed as incomplete and some kept."""
ASSUMPTIONS = ["magnitudes are first rounded to one decimal, magnitudes half way between are "
               "not generated", "additional empty bins above the largest magnitude are accepted"]


def case(d):
    end = d.choose([2009, 1990, 500, d.int(-3000, 2012)])
    span = d.choose([10, 50, 100, 1, 0])
    lo = d.choose([d.int(20, 60), d.int(20, 60), d.int(-20, 80)]) / 10
    events = d.list(1, 40, 16, lambda q: [
        end - q.int(0, span),
        round(lo + q.choose([q.int(0, 30) / 10, q.int(0, 10) / 10,
                             q.int(0, 30) / 10 + q.choose([-4, -3, -2, -1, 1, 2, 3, 4]) / 100]),
              2)])
    events = gens.whole(d.part(1), events, 1)

    def table_row(q):
        y, m = q.choose(events)
        return [y + q.choose([0, 1, -1, q.int(-20, 20)]) + q.choose([0, 0, 0, 0.5, 0.25]),
                round(m + q.choose([0, 0.1, -0.1, q.int(-10, 10) / 10, 0.05]), 2)]
    table = d.list(1, 6, 18, table_row)
    if d.chance(1, 2):
        table = sorted(table, key=lambda r: (-r[0], r[1]))
    return {'events': events, 'table': table, 'dm': d.choose([0.1, 0.2, 0.5, 0.25, 0.3, 1.0]),
            'dt': d.choose([1.0, 2.0, 0.5, 5.0, 1, 10.0, 2.5, 1.5])}


def call(c, cut=None):
    e, t = gens.array(c['events']), gens.array(c['table'])
    ctime, cmag = t[:, 0], t[:, 1]
    if cut is not None:
        if cut < 0:
            ctime = ctime[:cut]
        else:
            cmag = np.append(cmag, cmag[:1])
    return weichert_prep(e[:, 0], e[:, 1], ctime, cmag, c['dm'], c['dt'])


def check(c):
    with code('weichert_prep'):
        centres, periods, counts = call(c)
    n = len(centres)
    require(len(periods) == len(counts) == n and n, '%d, %d and %d values', n,
            len(periods), len(counts))
    dm, dt = Fraction(str(c['dm'])), Fraction(str(c['dt']))
    events = [(y, Fraction(int(round(10 * m)), 10)) for y, m in c['events']]
    table = [(y, Fraction(str(m))) for y, m in c['table']]
    low = min(m for y, m in events)
    first, last = min(y for y, m in events), max(y for y, m in events)
    require(low + n * dm > max(m for y, m in events), '%d bins do not cover the events', n)
    removed = 0
    for k in range(n):
        a = low + k * dm
        what = 'bin from %s' % float(a)
        inside = [y for y, m in events if a <= m < a + dm]
        kept = 0
        for y in inside:
            start = first + (y - first) // dt * dt
            if any(start < cy and a < cm for cy, cm in table):
                removed += 1
            else:
                kept += 1
        require(abs(centres[k] - float(a + dm / 2)) <= 2e-6, '%s has the centre %r', what,
                centres[k])
        require(counts[k] == kept, '%s: %r events instead of %d of %d', what, counts[k],
                kept, len(inside))
        rows = [cy for cy, cm in table if cm <= a]
        period = last - (rows[-1] if rows else table[-1][0]) + 1
        require(periods[k] == period, '%s: period %r instead of %r', what, periods[k],
                period)
    total = len(events)
    return {'nontrivial': 0 < removed < total, 'all removed': removed == total,
            'none removed': removed == 0, 'rows over 2': len(table) > 2}


def mismatched(d):
    c = case(d)
    c['cut'] = d.choose([1, -1])
    if c['cut'] < 0 and len(c['table']) == 1:
        c['table'] = c['table'] * 2
    return c


def check_mismatched(c):
    raises((Exception,), call, c, c['cut'])


SIZE = 40 * 16 + 6 * 18 + 40
FACETS = [Facet('table', lambda: gens.decoded(SIZE, case), check, quick=1000,
                thorough=30000),
          Facet('mismatched', lambda: gens.decoded(SIZE, mismatched), check_mismatched,
                quick=60, thorough=1000),
          Facet('large', lambda: gens.large(case, 20), check, quick=80, thorough=500),
          Facet('larger', lambda: gens.large(case, 250), check, quick=24, thorough=200)]
