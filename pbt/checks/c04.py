import io
import math

import gens
from core import Facet, Hang, Violation, code, require

from mtoolkit.eqcatalog import EqEntryReader

RULE = """Text after the documented header made from valid rows by up to 12
random edits (characters replaced, inserted or deleted, cells exchanged or
replaced by extreme numbers, rows joined, cut or repeated), or of arbitrary
characters. Whatever entry is delivered, also before an error, must have all
fields within the documented types and ranges. Non-trivial: an entry was
delivered from text with edits, or an error was raised after one."""
ASSUMPTIONS = ["What is done with cells beyond the documented columns is not "
               "judged: the row may be refused or they may be left over."]

TOKENS = ['', ' ', '-1', '0', '1', '2', '12', '13', '23', '24', '29', '30', '31',
          '32', '59', '60', '61', '90', '-90', '91', '180', '-180', '181', '360',
          '361', '-10000', '-10001', '99999', '1e400', '-1e400', 'nan', 'inf',
          '1e-320', '-0.0', '0.0', '1_0', '+5', '0x1F', '1.0', '2.5', 'x', '"',
          '""', "'", '\x00', '\xa05', '\u0663', '59.999', '-1e-9', '1,', 'None',
          'True', '1e2', '-']
CHARS = '0123456789+-.eE,"\n\r \tnaix_\x00;\'\u0665\xa0\u2212'


def text(d):
    if d.chance(1, 10):
        return {'text': ''.join(d.choose(CHARS) for _ in range(d.below(120))),
                'edits': 1}
    rows = d.list(1, 4, gens.ROW, gens.valid_cells)
    edits = d.below(13)
    cells = edits // 2
    for _ in range(cells):
        row = d.choose(rows)
        if row:
            k = d.below(len(row))
            how = d.below(8)
            if how < 6:
                row[k] = d.choose(TOKENS)
            elif how == 6:
                j = d.below(len(row))
                row[k], row[j] = row[j], row[k]
            else:
                del row[k]
    body = gens.csv_text(rows, header='')[1:]
    for _ in range(edits - cells):
        if not body:
            break
        at = d.below(len(body))
        how = d.below(4)
        if how == 0:
            body = body[:at] + d.choose(CHARS) + body[at + 1:]
        elif how == 1:
            body = body[:at] + d.choose(CHARS) + body[at:]
        elif how == 2:
            body = body[:at] + body[at + 1:]
        else:
            body = body[:at] + d.choose(TOKENS) + body[at:]
    return {'text': body, 'edits': edits}


def wrong(entry):
    """What is wrong with a delivered entry."""
    missing = set(gens.FIELDS) - set(entry)
    if missing:
        return 'no field %s' % sorted(missing)
    for f in gens.FIELDS:
        v = entry[f]
        if f == 'Agency':
            if v is not None and not isinstance(v, str):
                return 'Agency %r' % (v,)
            continue
        if f not in gens.COMPULSORY and v == '' and f != 'sigmaMw':
            continue
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            return '%s is %r' % (f, v)
        if math.isnan(v) or math.isinf(v):
            return '%s is %r' % (f, v)
        if f in gens.INTS and not isinstance(v, int):
            return '%s is %r' % (f, v)
    e = entry

    def holds(f, ok):
        return e[f] == '' or ok(e[f])

    ranges = {'eventID': lambda v: v > 0, 'Identifier': lambda v: v > 0,
              'year': lambda v: -10000 <= v <= gens.NOW,
              'month': lambda v: 1 <= v <= 12,
              'day': lambda v: 1 <= v <= (29 if e['month'] == 2 else 31),
              'hour': lambda v: 0 <= v <= 23, 'minute': lambda v: 0 <= v <= 59,
              'second': lambda v: 0 <= v < 60,
              'longitude': lambda v: -180 <= v <= 180,
              'latitude': lambda v: -90 <= v <= 90, 'depth': lambda v: v > 0,
              'ErrorStrike': lambda v: 0 <= v <= 360}
    for f in ('SemiMajor90', 'SemiMinor90', 'depthError', 'sigmaMw', 'sigmaMs',
              'sigmamb', 'sigmaML'):
        ranges[f] = lambda v: v >= 0
    for f, ok in ranges.items():
        if not holds(f, ok):
            return '%s is %r' % (f, e[f])
    trio = [e[f] for f in ('SemiMinor90', 'SemiMajor90', 'ErrorStrike')]
    if '' in trio and trio != ['', '', '']:
        return 'part of an ellipse: %r' % (trio,)
    if trio[0] != '' and trio[0] > trio[1]:
        return 'ellipse %r' % (trio,)
    return None


def check(case):
    with code('making the reader'):
        reader = EqEntryReader(io.StringIO(gens.HEADER + '\n' + case['text'],
                                           newline=''))
    delivered = 0
    failed = False
    try:
        for entry in reader.read():
            delivered += 1
            require(delivered <= len(case['text']) + 1, 'more entries than text')
            problem = wrong(entry)
            require(problem is None, 'entry %d: %s', delivered, problem)
    except (Violation, Hang):
        raise
    except Exception:
        failed = True
    return {'nontrivial': case['edits'] > 0 and delivered > 0,
            'error': failed, 'delivered': min(delivered, 3)}


FACETS = [Facet('text', lambda: gens.decoded(4 * gens.ROW + 200, text), check, quick=3000, thorough=60000),
          Facet('large', lambda: gens.large(text, 100), check, quick=40, thorough=400)]
