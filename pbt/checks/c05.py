import io
import os

import gens
from core import Facet, code, raises, require

from mtoolkit.eqcatalog import EqEntryReader, EqEntryWriter

RULE = """Lists of 0 to 8 valid entries (blank optional fields, numbers of any
precision, agency text with commas, quotes and line ends, negative years), given as
dictionaries in any field order, written over a file that may hold something
else, maybe twice with one writer, under a plain name, a relative or an
absolute path; and paths in directories that do not exist. Non-trivial: two
entries or more, or a refused path."""
ASSUMPTIONS = ["entries are ones the reader can deliver from a file: no carriage return in text"]


def precise(d):
    """A valid row with some numbers of full precision."""
    cells = gens.valid_cells(d)

    def put(f, v):
        cells[gens.FIELDS.index(f)] = repr(v)

    if d.chance(2, 3):
        put('longitude', d.float(-180, 180))
        put('latitude', d.float(-90, 90))
        put('Mw', d.float(0, 10))
        put('depth', d.choose([d.float(1e-9, 700), 1e-300, 1e22, 123456789.123456789]))
        put('second', d.float(0, 60))
        put('timeError', d.choose([d.float(-1, 1), 1e-7, 1e300, -3.3e-12]))
        put('sigmaMw', d.float(0, 1))
        put('mb', d.float(0, 10))
    return cells


def entries(d):
    return {'rows': gens.repeated(d.part(10), d.list(0, 8, gens.ROW + 60, precise), 8),
            'old': d.list(0, 8, gens.ROW, gens.valid_cells) if d.bool() else None,
            'same_writer': d.bool(), 'rotate': d.below(25),
            'path': d.choose(['c05.csv', './c05.csv', 'out/c05.csv',
                              'out/../c05.csv', '/c05.csv', 'out/deep/x.y'])}


def as_dict(entry, rotate):
    names = gens.FIELDS[rotate:] + gens.FIELDS[:rotate]
    return dict((f, entry[f]) for f in names)


def long_list(d):
    c = entries(d)
    c['rows'] = c['rows'] or [precise(d)]
    return dict(c, count=gens.many(d, 12000))


def check(case):
    if 'count' in case:
        case = dict(case, rows=gens.cycled(case['rows'], case['count']))
    os.makedirs('out/deep', exist_ok=True)
    path = case['path']
    if path.startswith('/'):
        path = os.getcwd() + path
    if os.path.exists(path):
        os.remove(path)
    want = [gens.expected_entry(r) for r in case['rows']]
    given = [as_dict(e, case['rotate']) for e in want]
    with code('writing'):
        writer = None
        if case['old'] is not None:
            writer = EqEntryWriter(path)
            writer.write_rows([gens.expected_entry(r) for r in case['old']])
        if writer is None or not case['same_writer']:
            writer = EqEntryWriter(path)
        writer.write_rows(given)
        require(given == want, 'the entries were changed')
        require(os.path.exists(path), 'no file')
        with open(path, newline='') as f:
            text = f.read()
        require(text.split('\n')[0].rstrip('\r') == gens.HEADER,
                'the first line is %.300r', text.split('\n')[0])
        with open(path) as f:
            got = EqEntryReader(f).read_eq_catalog()
        require(len(got) == len(want), '%d entries read back of %d',
                len(got), len(want))
        for i, (g, w) in enumerate(zip(got, want)):
            diff = gens.same_entry(g, w)
            require(diff is None, 'entry %d: %s', i + 1, diff)
        # nothing but the entries: the same through any CSV reader
        import csv
        rows = list(csv.reader(io.StringIO(text, newline='')))
        require(len(rows) == len(want) + 1, '%d rows in the file', len(rows) - 1)
    os.remove(path)
    return {'nontrivial': len(want) > 1, 'replaces': case['old'] is not None,
            'shorter': case['old'] is not None and len(case['old']) > len(want)}


def nowhere(d):
    def part(d):
        return d.choose('abc_') + ''.join(
            d.choose('abc.-_ ') for _ in range(d.below(6)))

    return {'absolute': d.bool(), 'exists': d.bool(), 'parts': d.list(2, 4, 20, part)}


def check_nowhere(case):
    path = os.path.join('none', *case['parts'])
    if case['exists']:
        # the directory itself exists, or all but the last one do
        os.makedirs(os.path.join('some', *case['parts'][:-2]), exist_ok=True)
        path = os.path.join('some', *case['parts'][:-2], 'not there', 'x')
    if case['absolute']:
        path = os.path.join(os.getcwd(), path)
    raises((IOError,), lambda: EqEntryWriter(path))
    require(not os.path.exists(os.path.dirname(path)), 'made the directory')
    return {'absolute': case['absolute']}


FACETS = [Facet('round trip', lambda: gens.decoded(7020, entries), check, quick=700, thorough=15000),
          Facet('no directory', lambda: gens.decoded(100, nowhere), check_nowhere, quick=200, thorough=1000),
          Facet('large', lambda: gens.large(entries, 150), check, quick=20, thorough=300),
          Facet('long', lambda: gens.large(long_list, 1), check, quick=8, thorough=50)]
