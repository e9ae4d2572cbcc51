import math
from fractions import Fraction

import numpy as np

import gens
from core import Discard, Facet, code, require

from mtoolkit.scientific.recurrence import b_max_likelihood, b_maxlike_time

RULE = """(1) Binned counts (1 to 20 bins, empty ones included) with a
completeness magnitude on, between and below bin centres; (2) catalogues of 2 to
50 events with completeness tables of 1 to 5 rows in any order, with repeated
and non-contiguous years, every period having two events or more. Oracle: the
formulas in plain Python with exact binning; all four results are the means of
those of the periods alone. Non-trivial: events in two bins,
and for the tables two periods or more."""
ASSUMPTIONS = ["relative tolerance 1e-9", "the bins begin at the smallest selected magnitude "
               "rounded down to 0.1 and belong to the complete part if their centre does", "the error of the rate of a single period is not specified"]
LOG10E = math.log10(math.e)


def estimate(bins, width, least):
    """b and its error of [(centre, count)] from the centre least on."""
    bins = [(m, n) for m, n in bins if m >= least]
    total = sum(n for m, n in bins)
    mean = sum(m * n for m, n in bins) / total
    low = min(m for m, n in bins)
    b = LOG10E / (mean - low + width / 2)
    spread = sum(n * (m - mean) ** 2 for m, n in bins)
    return b, 2.3 * b * b * math.sqrt(spread / (total * (total - 1)))


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(abs(a), abs(b), 1e-6)


def binned(d):
    width = d.choose([0.1, 0.2, 0.25, 0.5, 1.0])
    low = d.choose([d.int(20, 60), d.int(-30, 10)]) / 10
    counts = d.list(1, 20, 4, lambda q: q.choose([0, 1, 2, q.int(0, 100)]))
    counts[d.below(len(counts))] += 1
    counts[d.below(len(counts))] += 1
    centres = [low + k * width + width / 2 for k in range(len(counts))]
    k = d.below(len(counts))
    least = d.choose([0.0, centres[k], centres[k] + 0.3 * width,
                      centres[k] - 0.3 * width, low])
    if sum(n for m, n in zip(centres, counts) if m >= least) < 2:
        least = low if low < 0 else 0.0
    return {'centres': centres, 'counts': counts, 'width': width, 'least': least}


def check_binned(c):
    m, n = gens.array(c['centres']), gens.array(c['counts'])
    with code('b_max_likelihood'):
        b, error = b_max_likelihood(m, n, *gens.shortened(
            [c['width'], c['least']], [0.1, 0.0]))
    want = estimate(list(zip(c['centres'], c['counts'])), c['width'], c['least'])
    require(near(b, want[0]), 'b-value %r instead of %r', b, want[0])
    require(near(error, want[1]) or abs(error - want[1]) < 1e-7,
            'error %r instead of %r', error, want[1])
    with code('b_max_likelihood'):
        b10 = b_max_likelihood(m, 10 * n, c['width'], c['least'])[0]
    require(near(b10, b), 'ten times the events change the b-value: %r, %r', b, b10)
    used = [k for k, v in enumerate(c['counts']) if v and c['centres'][k] >= c['least']]
    return {'nontrivial': len(used) > 1,
            'bins below': c['least'] > min(c['centres'])}


def selected(c, row_year):
    least = min(Fraction(str(m)) for y, m in c['table'] if y == row_year)
    return least, [(y, Fraction(str(m))) for y, m in c['events']
                   if y >= row_year and Fraction(str(m)) >= least]


def catalogue(d):
    two = d.chance(1, 4)
    b = d.choose([1.0, 0.7, 1.4])
    low = d.choose([4.0, 4.0, 4.0, 0.3, -1.5])
    events = d.list(2, 50, 12, lambda q: [
        2009 - int(100 * q.float(0, 1) ** 2),
        round(min(low + 4.5, low - math.log10(1 - q.float(0, 0.999)) / b), 2 if two else 1)])
    events = gens.whole(d.part(1), events, 1)
    years = [1990, 1950, 1970, 1900, 2005]
    table = d.list(1, 5, 12, lambda q: [q.choose([q.choose(years), q.int(1900, 2009)]) +
                                        q.choose([0, 0, 0, 0.5]),
                                        round(low + q.int(-5, 20) / 10, 1)])
    if d.chance(1, 3):
        table = sorted(table, key=lambda r: (-r[0], r[1]))
    move = d.choose([0, 0, 0, -1000, d.int(-6000, 0)])
    events, table = [[[y + move, m] for y, m in x] for x in (events, table)]
    c = {'events': events, 'table': table, 'width': d.choose([0.1, 0.2, 0.5, 0.25]),
         'reference': d.choose([4.0, 0.0, 5.5, 3.0, -1.0])}
    c['table'] = [r for r in table if len(selected(c, r[0])[1]) > 1] or \
        [[min(y for y, m in events), min(m for y, m in events)]]
    return c


def period(c, year):
    least, events = selected(c, year)
    width = Fraction(str(c['width']))
    low = Fraction(math.floor(10 * min(m for y, m in events)), 10)
    counts = {}
    for y, m in events:
        k = (m - low) // width
        counts[k] = counts.get(k, 0) + 1
    bins = [(float(low + k * width + width / 2), counts.get(k, 0))
            for k in range(int(max(counts)) + 1)]
    least_f = float(least)
    if any(abs(m - least_f) < 1e-6 for m, n in bins) or \
            sum(n for m, n in bins if m > least_f) < 2:
        raise Discard()
    b, error = estimate(bins, c['width'], least_f)
    years = max(y for y, m in events) - min(y for y, m in events) + 1
    rate = len(events) / float(years) * 10 ** (b * (float(least) - c['reference']))
    return b, error, rate, len(events), len(counts)


def call(c, table):
    e, t = gens.array(c['events']), gens.array(table)
    with code('b_maxlike_time'):
        return b_maxlike_time(e[:, 0], e[:, 1], t[:, 0], t[:, 1], *gens.shortened(
            [c['width'], c['reference']], [0.0]))


def check_catalogue(c):
    periods = [period(c, y) for y in sorted(set(y for y, m in c['table']))]
    got = call(c, c['table'])
    require(len(got) == 4, '%d results', len(got))
    total = float(sum(p[3] for p in periods))
    names = ('b-value', 'error', 'rate')
    for k, name in enumerate(names):
        want = sum(p[k] * p[3] for p in periods) / total
        # centres of bins are rounded to 6 decimals
        require(near(got[k], want, 1e-5) or (k == 1 and abs(got[k] - want) < 1e-7),
                '%s %r instead of %r', name, got[k], want)
    # whatever the error of the rate of one period is, the table averages it too
    if len(periods) > 1:
        alone = [call(c, [r for r in c['table'] if r[0] == y])
                 for y in sorted(set(y for y, m in c['table']))]
        for k in range(4):
            want = sum(a[k] * p[3] for a, p in zip(alone, periods)) / total
            require(near(got[k], want, 1e-6),
                    'result %d is %r, the mean of the periods %r', k, got[k], want)
    other = call(c, c['table'][::-1])
    for k, name in enumerate(names):
        require(near(got[k], other[k]), '%s depends on the order of the table', name)
    return {'nontrivial': len(periods) > 1 and max(p[4] for p in periods) > 1,
            'one period': len(periods) == 1,
            'negative magnitudes': min(m for y, m in c['events']) < 0,
            'repeated years': len(periods) < len(c['table']),
            'rows over 2': len(c['table']) > 2}


FACETS = [Facet('binned', lambda: gens.decoded(100, binned), check_binned, quick=600,
                thorough=20000),
          Facet('catalogue', lambda: gens.decoded(50 * 12 + 91, catalogue),
                check_catalogue, quick=800, thorough=20000),
          Facet('large', lambda: gens.large(catalogue, 12), check_catalogue, quick=80, thorough=600),
          Facet('larger', lambda: gens.large(catalogue, 80), check_catalogue, quick=8, thorough=60)]
