import io

import gens
from core import Facet, code, require

from mtoolkit.eqcatalog import EqEntryReader

RULE = """Generated catalogues of 0 to 8 rows with all fields valid or blank:
equal rows, range limits, many spellings of the numbers, quoted cells, agency text with
commas, quotes and line ends, LF and CRLF, blank lines between, before and after
the rows, blanks in the header, missing final line end;
read from memory and from a file; up to 12000
rows made from few. Non-trivial: at least two rows."""
ASSUMPTIONS = ["numbers are spelled as Python's int() and float() accept"]


def row(d):
    cells = gens.valid_cells(d)
    how = d.below(3)
    quotes = [how == 1] * 25 if how < 2 else [d.chance(1, 2) for _ in cells]
    return cells, quotes


def catalogue(d):
    rows = gens.repeated(d.part(10), d.list(0, 8, gens.ROW + 30, row), 8)
    return {'rows': [r[0] for r in rows], 'quotes': [r[1] for r in rows],
            'crlf': d.bool(), 'last_eol': not d.bool(), 'file': d.bool(),
            'header': d.choose([',', ', ', ' ,', ' , ']),
            'blanks': gens.blank_lines(d, 8)}


def long_catalogue(d):
    c = catalogue(d)
    if not c['rows']:
        c['rows'], c['quotes'] = [row(d)[0]], [[False] * 25]
    return dict(c, count=gens.many(d, 12000))


def check(case):
    if 'count' in case:
        n = case['count']
        q = case['quotes']
        case = dict(case, rows=gens.cycled(case['rows'], n),
                    quotes=[q[i % len(q)] for i in range(n)])
    want = [gens.expected_entry(r) for r in case['rows']]
    text = gens.csv_text(case['rows'], case['quotes'],
                         '\r\n' if case['crlf'] else '\n', case['last_eol'],
                         case['header'].join(gens.FIELDS), case['blanks'])
    with code('reading a valid catalogue'):
        if case['file']:
            with open('c01.csv', 'w', newline='') as f:
                f.write(text)
            with open('c01.csv') as f:
                got = EqEntryReader(f).read_eq_catalog()
            with open('c01.csv') as f:
                lazy = list(EqEntryReader(f).read())
        else:
            got = EqEntryReader(io.StringIO(text, newline='')).read_eq_catalog()
            lazy = list(EqEntryReader(io.StringIO(text, newline='')).read())
        require(len(got) == len(want), '%d entries for %d rows', len(got), len(want))
        require(len(lazy) == len(want), '%d entries for %d rows, read one by one',
                len(lazy), len(want))
        for i, (g, l, w) in enumerate(zip(got, lazy, want)):
            for e in (g, l):
                diff = gens.same_entry(e, w)
                require(diff is None, 'row %d: %s', i + 1, diff)
    return {'nontrivial': len(want) > 1,
            'equal rows': len(set(map(tuple, case['rows']))) < len(want), 'rows': len(want),
            'blank lines': any(case['blanks']), 'crlf': case['crlf'],
            'file': case['file']}


FACETS = [Facet('read', lambda: gens.decoded(8 * gens.ROW + 320, catalogue), check, quick=1000, thorough=20000),
          Facet('large', lambda: gens.large(catalogue, 200), check, quick=24, thorough=300),
          Facet('long', lambda: gens.large(long_catalogue, 1), check, quick=12, thorough=60)]
