import io

import gens
from core import Facet, code, require

from mtoolkit.eqcatalog import EqEntryReader

RULE = """Catalogues of 1 to 5 rows in which up to ten optional cells per row
hold text, blanks, negative or out-of-range numbers, limits of the ranges, or
are missing because the row ends early. Non-trivial: some optional field is to
be blanked or replaced."""
ASSUMPTIONS = []

BAD = ['', ' ', 'x', '-', 'n/a', '1..2', 'nan', '-nan', 'inf', '-inf', '1e', '--1']
EDGE = {
    'second': ['60', '-0.1', '59.99', '60.0', '61', '-1', '0', '59.5', '59', '1e3'],
    'timeError': ['-1', '-0.5', '0', '1e6'],
    'SemiMajor90': ['-1', '-0.001', '0', '1', '2.5'],
    'SemiMinor90': ['-1', '-0.001', '0', '1', '2.5', '1e4'],
    'ErrorStrike': ['-0.1', '360.1', '360', '0', '-5', '720', '180', '359.9'],
    'depthError': ['-1', '-1e-9', '0', '3'],
    'sigmaMw': ['-1', '-0.1', '0', '0.2', '-1e-9'],
    'Ms': ['-1', '0', '6.5', '-3.25'], 'mb': ['-1', '0', '6.5'],
    'ML': ['-2', '0', '6.5'],
    'sigmaMs': ['-1', '-0.1', '0', '0.2'], 'sigmamb': ['-1', '-0.1', '0', '0.3'],
    'sigmaML': ['-1', '-0.01', '0', '0.4']}


def spoiled(d):
    cells = gens.valid_cells(d)
    if d.chance(1, 2):
        # a complete ellipse, so that the rules for the three are reached
        a, b = sorted([d.rounded(0, 50, 2), d.rounded(0, 50, 2)])
        for f, v in (('SemiMinor90', a), ('SemiMajor90', b),
                     ('ErrorStrike', d.rounded(0, 360, 1))):
            cells[gens.FIELDS.index(f)] = repr(v)
    for _ in range(d.below(7)):
        f = d.choose(gens.OPTIONAL)
        cells[gens.FIELDS.index(f)] = d.choose(EDGE[f] if d.chance(2, 3) else BAD)
    if d.chance(1, 5):
        k = gens.FIELDS.index('SemiMinor90')
        cells[k], cells[k - 1] = cells[k - 1], cells[k]
    if d.chance(1, 6):
        cells = cells[:d.int(gens.FIELDS.index('Mw') + 1, 25)]
    return cells


def catalogue(d):
    return {'rows': gens.repeated(d.part(7), d.list(1, 5, gens.ROW + 60, spoiled), 5),
            'crlf': d.bool(), 'blanks': gens.blank_lines(d, 5)}


def long_catalogue(d):
    return dict(catalogue(d), count=gens.many(d, 12000))


def check(case):
    if 'count' in case:
        case = dict(case, rows=gens.cycled([r for r in case['rows']], case['count']))
    want = [gens.expected_entry(r) for r in case['rows']]
    text = gens.csv_text(case['rows'], None, '\r\n' if case['crlf'] else '\n',
                         blanks=case['blanks'])
    with code('reading'):
        got = EqEntryReader(io.StringIO(text, newline='')).read_eq_catalog()
    require(len(got) == len(want), '%d entries for %d rows', len(got), len(want))
    changed = 0
    trio = False
    for i, (g, w) in enumerate(zip(got, want)):
        diff = gens.same_entry(g, w)
        require(diff is None, 'row %d: %s', i + 1, diff)
        raw = dict(zip(gens.FIELDS, case['rows'][i]))
        for f in gens.OPTIONAL:
            if w[f] in ('', 0.0) and (raw.get(f) or '').strip() not in ('', '0', '0.0'):
                changed += 1
        trio = trio or w['ErrorStrike'] != ''
    return {'nontrivial': changed > 0, 'ellipse kept': trio,
            'short row': any(len(r) < 25 for r in case['rows'])}


FACETS = [Facet('blanking', lambda: gens.decoded(5 * gens.ROW + 320, catalogue), check, quick=1000, thorough=20000),
          Facet('large', lambda: gens.large(catalogue, 250), check, quick=24, thorough=300),
          Facet('long', lambda: gens.large(long_catalogue, 1), check, quick=10, thorough=60)]
