import datetime

import numpy as np

import gens
from core import Facet, code, require

from mtoolkit.scientific.catalogue_utilities import decimal_year, greg2julian

RULE = """Arrays of 1 to 20 dates, from -10000 on for the decimal year and
from there to 9999 for the Julian date, with month ends, 29 February and 31 December
frequent; the calendar of Python's datetime (cycles of 400 years for the
years it does not have) is the oracle. Non-trivial: two
dates or more."""
ASSUMPTIONS = ["decimal year: 29 February counts as the day after 28 February, "
               "like 1 March"]

LENGTH = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def date(d, lo, hi):
    y = d.choose([lo, hi] + [d.int(lo, hi)] * 3 + [d.int(max(lo, 1000), max(1000, min(hi, 2100)))] * 6
                 + [d.choose([1600, 1700, 1900, 2000, 2004])] * 2)
    y = min(y, hi)
    m = d.choose([1, 2, 3, 12] + [d.int(1, 12)] * 4)
    last = LENGTH[m - 1] + (1 if m == 2 and leap(y) else 0)
    day = d.choose([1, last, last - 1] + [d.int(1, last)] * 4)
    return [y, m, day, d.choose([0, 23, d.int(0, 23)]), d.choose([0, 59, d.int(0, 59)]),
            d.choose([0.0, 59.9, d.rounded(0, 59.9, 1)])]


def julian(d):
    return date(d, *d.choose([(1, 9999), (1, 9999), (1, 9999), (-10000, 0)]))


def days(m, day):
    return sum(LENGTH[:m - 1]) + day - 1


def check_decimal(c):
    a = gens.array(c)
    with code('decimal_year'):
        got = np.asarray(decimal_year(a[:, 0], a[:, 1], a[:, 2]))
    require(got.shape == (len(c),), 'shape %s for %d dates', got.shape, len(c))
    for (y, m, day), v in zip([x[:3] for x in c], got):
        want = y + days(m, day) / 365.0
        require(abs(v - want) <= 1e-9, '%s-%s-%s is %r, not %r', y, m, day, v, want)
    order = sorted(range(len(c)), key=lambda i: c[i][:3])
    for i, j in zip(order, order[1:]):
        require(got[i] <= got[j], '%s is after %s', c[i][:3], c[j][:3])
    return {'nontrivial': len(c) > 1, 'negative': bool((a[:, 0] < 0).any()),
            '29 February': any(x[1:3] == [2, 29] for x in c)}


def ordinal(y, m, day):
    cycles = max(0, -y // 400 + 1)
    return datetime.date(y + 400 * cycles, m, day).toordinal() - 146097 * cycles


def next_day(y, m, day):
    cycles = max(0, -y // 400 + 1)
    n = datetime.date(y + 400 * cycles, m, day) + datetime.timedelta(days=1)
    return n.year - 400 * cycles, n.month, n.day


def check_julian(c):
    a = gens.array(c)
    with code('greg2julian'):
        whole = np.asarray(greg2julian(*[a[:, k] for k in range(6)]))
    require(whole.shape == (len(c),), 'shape %s for %d dates', whole.shape, len(c))
    for x, v in zip(c, whole):
        y, m, day, h, mi, s = x
        want = ordinal(y, m, day) + 1721424.5 + \
            (h + mi / 60.0 + s / 3600.0) / 24.0
        require(abs(v - want) <= 1e-8, '%s is %r, not %r', x, v, want)
        with code('greg2julian'):
            single = greg2julian(*x)
        require(abs(single - want) <= 1e-8, '%s alone is %r, not %r', x, single, want)
        if (y, m, day) != (9999, 12, 31):
            with code('greg2julian'):
                after = greg2julian(*(next_day(y, m, day) + (0, 0, 0.0))) - \
                    greg2julian(y, m, day, 0, 0, 0.0)
            require(after == 1, '%r days from %s to the next day', after, x[:3])
    return {'nontrivial': len(c) > 1, 'negative': bool((a[:, 0] < 0).any()),
            '29 February': any(x[1:3] == [2, 29] for x in c)}


FACETS = [
    Facet('decimal year', lambda: gens.decoded(
        20 * 40 + 2, lambda d: d.list(1, 20, 40, lambda q: date(q, -10000, gens.NOW))),
        check_decimal, quick=500, thorough=20000),
    Facet('julian date', lambda: gens.decoded(
        20 * 40 + 2, lambda d: d.list(1, 20, 40, lambda q: julian(q))),
        check_julian, quick=400, thorough=20000),
    Facet('large decimal year', lambda: gens.large(
        lambda d: d.list(1, 20, 40, lambda q: date(q, -10000, gens.NOW)), 50),
        check_decimal, quick=80, thorough=500),
    Facet('large julian date', lambda: gens.large(
        lambda d: d.list(1, 20, 40, lambda q: julian(q)), 25),
        check_julian, quick=48, thorough=300),
          Facet('larger decimal year', lambda: gens.large(
        lambda d: d.list(1, 20, 40, lambda q: date(q, -10000, gens.NOW)), 600),
        check_decimal, quick=16, thorough=100),
          Facet('larger julian date', lambda: gens.large(
        lambda d: d.list(1, 20, 40, lambda q: julian(q)), 300),
        check_julian, quick=12, thorough=100)]
