"""Generators shared by the checks. All cases are plain JSON values."""

import datetime
import math
import random
import zlib

import numpy as np
from hypothesis import strategies as st

FIELDS = ['eventID', 'Agency', 'Identifier', 'year', 'month', 'day', 'hour',
          'minute', 'second', 'timeError', 'longitude', 'latitude',
          'SemiMajor90', 'SemiMinor90', 'ErrorStrike', 'depth', 'depthError',
          'Mw', 'sigmaMw', 'Ms', 'sigmaMs', 'mb', 'sigmamb', 'ML', 'sigmaML']
INTS = ['eventID', 'Identifier', 'year', 'month', 'day', 'hour', 'minute']
COMPULSORY = INTS + ['longitude', 'latitude', 'depth', 'Mw']
OPTIONAL = [f for f in FIELDS if f not in COMPULSORY and f != 'Agency']
HEADER = ','.join(FIELDS)
NOW = datetime.datetime.now().year


class D(object):
    """Decodes a chunk of bytes drawn by Hypothesis into choices. One draw
    gives a whole row or event, which is two orders of magnitude faster than a
    draw per value; zero bytes, to which Hypothesis shrinks, are the simplest
    choices. Past the end everything is zero."""

    scale = 1          # how often more parts a list may have
    top = 1            # the same of the whole case

    def __init__(self, data):
        self.data = data
        self.at = 0

    def byte(self):
        i = self.at
        self.at += 1
        return self.data[i] if i < len(self.data) else 0

    def below(self, n):
        """0 .. n-1"""
        v = self.byte()
        bits = 8
        while (1 << bits) < n * 16 and bits < 64:
            v = (v << 8) | self.byte()
            bits += 8
        return (v * n) >> bits

    def int(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def chance(self, num, den=256):
        """True with probability num/den; False when shrunk."""
        return self.byte() >= 256 - num * 256 // den

    def choose(self, options):
        return options[self.below(len(options))]

    def bool(self):
        return self.byte() >= 128

    def part(self, size):
        """The next size bytes."""
        part = D(self.data[self.at:self.at + size])
        self.at += size
        return part

    def list(self, lo, hi, size, function):
        """Between lo and hi values, each from bytes of its own."""
        n = self.int(lo, hi)
        parts = [self.part(size) for _ in range(hi)]
        return [function(p) for p in parts[:n]]

    def float(self, lo, hi):
        v = 0
        for _ in range(6):
            v = (v << 8) | self.byte()
        return lo + (hi - lo) * (v / float(1 << 48))

    def rounded(self, lo, hi, digits):
        return round(self.float(lo, hi), digits)

    def grid(self, lo, hi, per):
        """A multiple of 1/per."""
        return self.int(int(round(lo * per)), int(round(hi * per))) / per


class Large(D):
    """Choices without end, for cases with up to scale times as many parts."""

    def __init__(self, seed, scale=1, top=None):
        self.random = random.Random(seed)
        self.scale = scale
        self.top = top or scale

    def byte(self):
        return self.random.getrandbits(8)

    def part(self, size, scale=None):
        return Large(self.random.getrandbits(64),
                     self.scale if scale is None else scale, self.top)

    def list(self, lo, hi, size, function):
        n = self.int(lo, hi * self.scale)
        return [function(self.part(size, 1)) for _ in range(n)]


def large(function, scale):
    """Cases of up to scale times the size, from a seed. The first bytes set
    the scale, so that failures shrink to smaller cases."""
    def make(b):
        d = D(b)
        times = d.int(1, scale)
        return function(Large(bytes(b[d.at:]), times))
    return st.binary(min_size=12, max_size=12).map(make)


def decoded(size, function):
    """The whole case comes from one draw: with several draws Hypothesis'
    mutations put values where they do not fit, which it then replaces by the
    simplest ones, so that nearly half of the cases degenerate."""
    return st.binary(min_size=size, max_size=size).map(lambda b: function(D(b)))


def array(values, ints=True):
    """The numbers as an array; which kind of array depends on the numbers: a
    view of a larger one in various ways, one that cannot be written to, or one
    of integers, if all numbers are."""
    a = np.array(values, dtype=float)
    kind = zlib.crc32(a.tobytes()) % 8
    if kind == 0 and a.size:
        out = np.full(a.shape + (3,), 7.5)
        out[..., 1] = a
        return out[..., 1]
    if kind == 1:
        return a[::-1].copy()[::-1]
    if kind == 2:
        out = np.full((2 * len(a) + 1,) + a.shape[1:], -7.5)
        out[1::2] = a
        return out[1::2]
    if kind == 3:
        a.setflags(write=False)
    elif kind == 4:
        return np.array(a, order='F')
    elif kind in (5, 6) and ints and np.all(a == np.floor(a)) and \
            np.all(abs(a) < 2.0 ** 53):
        return a.astype(np.int64)
    return a


def whole(d, rows, *columns):
    """The rows, rarely with nothing but whole numbers in these columns."""
    if not d.chance(1, 8):
        return rows
    return [[float(round(v)) if k in columns else v for k, v in enumerate(r)]
            for r in rows]


def many(d, most, least=1):
    """A number up to most, of any order of magnitude or just large."""
    if d.bool():
        return d.int((most + 1) // 2, most)
    return int(least * (most / float(least)) ** d.float(0, 1))


def cycled(rows, count):
    """That many rows, from a few; each has a number of its own."""
    rows = [list(rows[i % len(rows)]) for i in range(count)]
    for i, r in enumerate(rows):
        r[0] = str(i + 1)
    return rows


# ---- catalogue cells, as text ---------------------------------------------

def int_text(d, v, plain=False):
    s = d.choose(['%d', '%d', '%d', '%d', ' %d', '%d ', '%03d', '%+d'])
    if plain and s == '%03d':
        s = '%d'
    return s % v


def float_text(d, v, ok=lambda v: True):
    """A spelling of v, rounded maybe, but such that it is still ok."""
    s = d.choose(['r', 'r', 'r', 'r', '%.3f', '%e', ' r', 'r ', '%g', '%.1f',
                  '%+.4f', '%.2f', '%.0f'])
    t = s.replace('r', repr(v)) if 'r' in s else s % v
    return t if ok(float(t)) else repr(v)


def within(lo, hi):
    return lambda v: lo <= v <= hi


def day_of(d, m):
    return d.choose([1, 29 if m == 2 else 31] + [d.int(1, 29 if m == 2 else 31)] * 6)


AGENCY_CHARS = 'ABCxyz019 ,"\'-_;#/\xe9\xfc\u4e2d\n'


def agency(d):
    if d.chance(1, 2):
        return ''.join(d.choose(AGENCY_CHARS) for _ in range(d.below(8)))
    return d.choose(['AAA', 'HRVD', 'ISC', '', 'NEIC-USGS', 'a b', 'aaa', 'Isc'])


def nonneg(d):
    k = d.below(8)
    return [0.0, 1e-9, 1e6][k] if k < 3 else d.rounded(0, 500, 3)


def degrees(d, limit):
    k = d.below(12)
    if k < 3:
        return [0.0, limit, -limit][k]
    return d.float(-limit, limit) if k < 7 else d.rounded(-limit, limit, 2)


def magnitude(d):
    return d.choose([d.rounded(0, 10, 2)] * 7 + [d.rounded(-3, 12, 3)])


def number(d):
    """Of an event; agencies make them of dates and times, for instance."""
    return d.choose([1, d.int(1, 10 ** 6), d.int(1, 10 ** 6), d.int(1, 10 ** 12),
                     d.int(10 ** 15, 10 ** 19), 2 ** 53 + 1])


def valid_cells(d):
    """25 cells of a row all of whose fields are valid or blank."""
    c = {}
    y = d.choose([-10000, NOW, -1, 0, -9999] + [d.int(1000, NOW)] * 20
                 + [d.int(-10000, NOW)] * 3)
    m = d.int(1, 12)
    c['eventID'] = int_text(d, number(d))
    c['Agency'] = agency(d)
    c['Identifier'] = int_text(d, number(d))
    c['year'] = int_text(d, y, plain=True)
    c['month'] = d.choose(['%d', '%02d', ' %d']) % m
    c['day'] = d.choose(['%d', '%02d', ' %d']) % day_of(d, m)
    c['hour'] = int_text(d, d.choose([0, 23] + [d.int(0, 23)] * 6))
    c['minute'] = int_text(d, d.choose([0, 59] + [d.int(0, 59)] * 6))

    def blank_or(text):
        return '' if d.chance(1, 4) else text

    second = d.choose([0.0, 59.0, 59.5, 59.999, 59.9999999] + [d.rounded(0, 59.99, 2)] * 8)
    c['second'] = blank_or(float_text(d, second, lambda v: 0 <= v < 60))
    c['timeError'] = blank_or(float_text(d, d.float(-5, 100)))
    c['longitude'] = float_text(d, degrees(d, 180.0), within(-180, 180))
    c['latitude'] = float_text(d, degrees(d, 90.0), within(-90, 90))
    if d.chance(3, 4):
        pair = sorted([nonneg(d), nonneg(d)])
        if d.chance(1, 6):
            pair[0] = pair[1]
        c['SemiMajor90'], c['SemiMinor90'] = repr(pair[1]), repr(pair[0])
        c['ErrorStrike'] = float_text(
            d, d.choose([0.0, 360.0] + [d.float(0, 360)] * 5), within(0, 360))
    else:
        c['SemiMajor90'] = c['SemiMinor90'] = c['ErrorStrike'] = ''
    c['depth'] = float_text(d, d.choose(
        [d.rounded(1e-3, 900, 4)] * 9 + [d.choose([1e-9, 1e-300, 0.0005, 1000.0, 6371.0, 1e5])]),
        lambda v: v > 0)
    c['depthError'] = blank_or(float_text(d, nonneg(d)))
    c['Mw'] = float_text(d, magnitude(d))
    for mag, sig in (('Mw', 'sigmaMw'), ('Ms', 'sigmaMs'), ('mb', 'sigmamb'),
                     ('ML', 'sigmaML')):
        if mag != 'Mw':
            c[mag] = blank_or(float_text(d, magnitude(d)))
        c[sig] = blank_or(float_text(d, nonneg(d)))
    return [c[f] for f in FIELDS]


def shortened(args, defaults):
    """The arguments without the last ones that are the defaults."""
    args, defaults = list(args), list(defaults)
    while defaults and args[-1] == defaults[-1]:
        del args[-1], defaults[-1]
    return args


def repeated(d, rows, most):
    """The rows, some of them the same as an earlier one. Takes most bytes + 1."""
    how = d.below(3)
    for k in range(1, max(most, len(rows))):
        v = d.byte()
        if k < len(rows) and how and v >= 176:
            rows[k] = list(rows[k - 1 if how == 1 else v % k])
    return rows


ROW = 400        # bytes that are enough for valid_cells


def csv_cell(text, quote):
    if quote or any(ch in text for ch in ',"\r\n'):
        return '"%s"' % text.replace('"', '""')
    return text


def blank_lines(d, most):
    """How many blank lines stand before each row and, the last, after all."""
    how = d.below(4)
    given = [max(0, d.below(12) - 8) for _ in range(most + 1)]
    return given if how == 0 else []


def spread(blanks, n):
    """The blank lines for n rows."""
    return (list(blanks) + [0] * (n + 1))[:n + 1]


def csv_text(rows, quotes=None, eol='\n', last_eol=True, header=HEADER,
             blanks=()):
    """quotes: per row a list of 25 booleans, or None."""
    blanks = spread(blanks, len(rows))
    lines = [header]
    for i, cells in enumerate(rows):
        lines.extend([''] * blanks[i])
        q = quotes[i] if quotes else [False] * len(cells)
        lines.append(','.join(csv_cell(c, b) for c, b in zip(cells, q)))
    lines.extend([''] * blanks[len(rows)])
    text = eol.join(lines)
    return text + eol if last_eol else text


def lines_of(rows, k, blanks=()):
    """The lines of the file on which row k (from 0) stands."""
    taken = [1 + sum(c.count('\n') for c in r) for r in rows[:k + 1]]
    first = 2 + sum(taken[:k]) + sum(spread(blanks, len(rows))[:k + 1])
    return list(range(first, first + taken[k]))


# ---- oracle: what an entry has to be ---------------------------------------

def finite(text):
    v = float(text)
    if math.isnan(v) or math.isinf(v):
        raise ValueError(text)
    return v


class Invalid(Exception):
    def __init__(self, field):
        Exception.__init__(self, field)
        self.field = field


def problem(field, text, month=None):
    """None if the text is a valid value of this compulsory field."""
    try:
        v = int(text) if field in INTS else finite(text)
    except (ValueError, TypeError):
        return 'not a number'
    ok = {'eventID': lambda: v > 0, 'Identifier': lambda: v > 0,
          'year': lambda: -10000 <= v <= NOW,
          'month': lambda: 1 <= v <= 12,
          'day': lambda: 1 <= v <= (29 if month == 2 else 31),
          'hour': lambda: 0 <= v <= 23, 'minute': lambda: 0 <= v <= 59,
          'longitude': lambda: -180 <= v <= 180,
          'latitude': lambda: -90 <= v <= 90,
          'depth': lambda: v > 0, 'Mw': lambda: True}[field]()
    return None if ok else 'out of range'


def expected_entry(cells):
    """The entry documented for this row (dict), or Invalid."""
    raw = dict(zip(FIELDS, list(cells) + [None] * (len(FIELDS) - len(cells))))
    out = {}
    for f in FIELDS:
        t = raw[f]
        if f == 'Agency':
            out[f] = t
        elif f in INTS or f in COMPULSORY:
            try:
                out[f] = int(t) if f in INTS else finite(t)
            except (ValueError, TypeError):
                raise Invalid(f)
        else:
            try:
                out[f] = finite(t)
            except (ValueError, TypeError):
                out[f] = ''
    for f in FIELDS:
        if f in COMPULSORY and problem(f, raw[f], out['month']):
            raise Invalid(f)
    if out['second'] != '' and not 0 <= out['second'] < 60:
        out['second'] = ''
    for f in ('SemiMajor90', 'SemiMinor90', 'depthError', 'sigmaMs', 'sigmamb',
              'sigmaML'):
        if out[f] != '' and out[f] < 0:
            out[f] = ''
    trio = [out[f] for f in ('SemiMinor90', 'SemiMajor90', 'ErrorStrike')]
    if '' in trio or trio[0] > trio[1] or not 0 <= trio[2] <= 360:
        out['SemiMinor90'] = out['SemiMajor90'] = out['ErrorStrike'] = ''
    if out['sigmaMw'] == '' or out['sigmaMw'] < 0:
        out['sigmaMw'] = 0.0
    return out


def same_entry(got, want):
    """None, or what differs."""
    if set(got) != set(want):
        return 'fields %s' % sorted(map(str, set(got) ^ set(want)))
    for f in FIELDS:
        g, w = got[f], want[f]
        if isinstance(w, str) != isinstance(g, str) or g != w:
            return '%s is %r instead of %r' % (f, g, w)
        if not isinstance(g, str) and g is not None and \
                (isinstance(g, bool) or isinstance(g, int) != (f in INTS)):
            return '%s is %r' % (f, g)
    return None
