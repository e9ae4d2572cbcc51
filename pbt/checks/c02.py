import io
import re

import gens
from core import Facet, Violation, code, raises, require

from mtoolkit.eqcatalog import (EqEntryReader, EqEntryValidationError,
                                MalformedCatalogError)

RULE = """Catalogues of up to 6 rows of which one, anywhere, has one
compulsory field broken (blank, missing because the row is short, no number,
just or far out of range), with blank lines and quoted line ends before it or not; and catalogues whose header differs from the
documented one. Non-trivial: an invalid row, or a wrong header of the right
length."""
ASSUMPTIONS = ["one invalid row per catalogue, one invalid compulsory field in it"]

GARBAGE = ['x', '1x', 'abc', '--', '1 2', '1,5', '.', 'e', '0x10', '1e', 'None',
           '1D3', '1.5d0', '1.2.3', '1:30', '--5', '+-1', '1/2', '1L', '5.0f', '0b1', '1_', '_1',
           '5 .0', '1e5.5', '- 5', '(5)', '$5', '5%']
OUT = {
    'eventID': ['0', '-1', '-20', '00'],
    'Identifier': ['0', '-1', '-300'],
    'year': ['-10001', str(gens.NOW + 1), '-20000', '99999', '19950'],
    'month': ['0', '13', '-1', '100', '21'],
    'day': ['0', '32', '-1', '99', '310'],
    'hour': ['-1', '24', '25', '-24', '60'],
    'minute': ['-1', '60', '61', '-59', '1000'],
    'longitude': ['180.0001', '-180.0001', '200', '-360', '181', '-181',
                  '180.0000000001', '-180.0000000001', '180.00001'],
    'latitude': ['90.0001', '-90.0001', '91', '-91', '180', '1e9',
                 '90.0000000001', '-90.0000000001', '90.00001', '-90.000001'],
    'depth': ['0', '0.0', '-0.0', '-1e-9', '-5', '-10.5', '-1e-300'],
    'Mw': []}


def breaking(d):
    cells = gens.valid_cells(d)
    field = d.choose(gens.COMPULSORY)
    how = d.choose(['out', 'out', 'text', 'blank', 'short', 'feb', 'decimal',
                    'nan'])
    k = gens.FIELDS.index(field)
    if how == 'feb':
        field, k = 'day', gens.FIELDS.index('day')
        cells[gens.FIELDS.index('month')] = d.choose(['2', '02'])
        cells[k] = d.choose(['30', '0', '31', '-1', '45'])
        return cells, field
    if how == 'short':
        # without every column from this one on: the first missing compulsory
        # field is the one to be reported
        return cells[:k], field
    if how == 'decimal' and field in gens.INTS:
        cells[k] = d.choose(['1.5', '2.25', '1e1', '11.75'])
    elif how == 'blank':
        cells[k] = d.choose(['', ' ', '   '])
    elif how == 'out' and OUT[field]:
        cells[k] = d.choose(OUT[field])
    elif how == 'nan' and field not in gens.INTS:
        cells[k] = d.choose(['nan', 'NaN', 'inf', '-inf', 'infinity'])
    else:
        cells[k] = d.choose(GARBAGE)
    return cells, field


def broken(d):
    bad, field = breaking(d.part(gens.ROW + 10))
    return {'before': gens.repeated(d.part(5), d.list(0, 3, gens.ROW, gens.valid_cells), 3),
            'bad': bad, 'field': field, 'crlf': d.bool(),
            'after': d.list(0, 2, gens.ROW, gens.valid_cells),
            'blanks': gens.blank_lines(d, 5)}


def far_down(d):
    c = broken(d)
    return dict(c, before=c['before'] or [gens.valid_cells(d)], count=gens.many(d, 10000))


def names_value(text, message):
    """The value is in the message, as it was spelled or as a number."""
    if text is None or not text.strip():
        return True
    spellings = [text, text.strip()]
    for kind in (int, float):
        try:
            spellings.append(str(kind(text)))
        except ValueError:
            pass
    return any(s in message for s in spellings)


def check_broken(case):
    if 'count' in case:
        case = dict(case, before=gens.cycled(case['before'], case['count']))
    rows = case['before'] + [case['bad']] + case['after']
    if not case['bad']:
        # a wholly empty row is no row for the csv module
        return {'nontrivial': False}
    try:
        gens.expected_entry(case['bad'])
    except gens.Invalid as e:
        # a short row lacks all the fields that follow
        fields = {e.field, case['field']}
    else:
        raise AssertionError('the row is valid')
    text = gens.csv_text(rows, None, '\r\n' if case['crlf'] else '\n',
                         blanks=case['blanks'])

    def source():
        return io.StringIO(text, newline='')

    want = [gens.expected_entry(r) for r in case['before']]
    got = []
    with code('reading'):
        reader = EqEntryReader(source())
        entries = reader.read()
    try:
        for entry in entries:
            got.append(entry)
            require(len(got) <= len(want), 'delivered the invalid row: %r', entry)
    except EqEntryValidationError as e:
        error = e
    except Violation:
        raise
    except Exception as e:
        raise Violation('%s (%s) instead of the validation error'
                        % (type(e).__name__, e))
    else:
        raise Violation('no error, %d of %d rows delivered'
                        % (len(got), len(rows)))
    require(len(got) == len(want), '%d of the %d rows before delivered',
            len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        diff = gens.same_entry(g, w)
        require(diff is None, 'row %d: %s', i + 1, diff)

    other = raises((EqEntryValidationError,),
                   EqEntryReader(source()).read_eq_catalog)
    k = len(case['before'])
    lines = gens.lines_of(rows, k, case['blanks'])
    for e in (error, other):
        message = ' '.join(str(a) for a in e.args)
        if len(case['bad']) == len(gens.FIELDS):
            require(case['field'] in message, 'does not name %s: %s',
                    case['field'], message)
            value = case['bad'][gens.FIELDS.index(case['field'])]
            require(names_value(value, message), 'does not tell %r: %s',
                    value, message)
        else:
            missing = [f for f in gens.COMPULSORY
                       if gens.FIELDS.index(f) >= len(case['bad'])]
            require(any(f in message for f in missing),
                    'names none of the missing fields: %s', message)
        numbers = re.findall(r'(?<![\w.+-])\d+(?![\w.])', message)
        require(any(str(line) in numbers for line in lines),
                'does not name line %d: %s', lines[-1], message)
    return {'field': sorted(fields)[0], 'short': len(case['bad']) < 25,
            'blank lines': any(case['blanks'][:k + 1]),
            'line ends in text': lines[-1] > k + 2 + sum(case['blanks'][:k + 1]),
            'line': lines[0]}


def bad_header(d):
    names = list(gens.FIELDS)
    how = d.choose(['swap', 'drop', 'add', 'rename', 'case', 'data', 'empty',
                    'sep', 'double'])
    i = d.below(len(names))
    j = (i + d.int(1, len(names) - 1)) % len(names)
    sep = ','
    if how == 'swap':
        names[i], names[j] = names[j], names[i]
    elif how == 'drop':
        del names[i]
    elif how == 'add':
        names.insert(i, d.choose(['x', '', 'Mw2', 'year']))
    elif how == 'rename':
        names[i] = d.choose(['x', names[j], names[i] + '1', 'Year ID',
                             names[i][:-1]])
    elif how == 'case':
        names[i] = names[i].swapcase()
    elif how == 'data':
        names = ['1'] * 25
    elif how == 'empty':
        names = ['']
    elif how == 'sep':
        sep = d.choose([';', '\t', ' '])
    elif how == 'double':
        names = names + names
    return {'how': how, 'header': sep.join(names),
            'rows': d.list(0, 2, gens.ROW, gens.valid_cells)}


def check_header(case):
    text = gens.csv_text(case['rows'], header=case['header'])
    raises((MalformedCatalogError,),
           lambda: EqEntryReader(io.StringIO(text, newline='')))
    return {'how': case['how'],
            'nontrivial': case['header'].count(',') == 24}


FACETS = [Facet('invalid', lambda: gens.decoded(7 * gens.ROW + 20, broken), check_broken, quick=1000, thorough=20000),
          Facet('header', lambda: gens.decoded(3 * gens.ROW, bad_header), check_header, quick=300, thorough=4000),
          Facet('large', lambda: gens.large(broken, 400), check_broken, quick=36, thorough=300),
          Facet('far down', lambda: gens.large(far_down, 1), check_broken, quick=10, thorough=60)]
