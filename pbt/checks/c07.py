import os

import cli
import gens
import nrmlgen
from core import Facet, Violation, code, require

from nrml.nrml_xml import SCHEMA_DIR, get_data_path
from nrml.reader import NRMLReader

RULE = """Schema-valid source models of 1 to 4 area sources in which one area
source gets one violation (a required element or identifier missing, misspelled
or repeated, wrong text for a number, number out of range, unknown region or
magnitude type), or which are cut off or have a tag that is never closed; the file may have held a valid
model that was read before.
Non-trivial: a valid area source comes before the violation."""
ASSUMPTIONS = ["the violations are ones the NRML 0.3 schema excludes"]

SCHEMA = get_data_path('nrml.xsd', SCHEMA_DIR)

REQUIRED = ['@tectonicRegion', '@areaBoundary', '$Polygon', '$exterior',
            '$LinearRing', '$posList', '@ruptureRateModel',
            '@truncatedGutenbergRichter', '@aValueCumulative', '@bValue',
            '@minMagnitude', '@maxMagnitude', '@strike', '@dip', '@rake',
            '@ruptureDepthDistribution', '@magnitude', '@depth',
            '@hypocentralDepth']
NUMBERS = ['@aValueCumulative', '@bValue', '@minMagnitude', '@maxMagnitude',
           '@strike', '@dip', '@rake', '@depth', '@magnitude', '$posList',
           '@hypocentralDepth']
RANGES = {'@strike': ['-0.1', '360.5', '361', '-90'], '@dip': ['-1', '90.5', '91'],
          '@rake': ['-180.5', '180.1', '270'], '@bValue': ['-0.1', '-1'],
          '@depth': ['-1', '-0.5', '5000 -3'], '@hypocentralDepth': ['-0.1', '-5']}


def damage(d):
    how = d.choose(['drop', 'rename', 'text', 'range', 'region', 'type', 'id',
                    'twice', 'order', 'cut', 'unclosed', 'attribute'])
    v = {'how': how, 'at': d.below(100), 'run': d.chance(1, 8)}
    if how in ('drop', 'rename'):
        v['tag'] = d.choose(REQUIRED)
        v['as'] = d.choose(['@x', '@Strike', '@areaboundary', '@AValueCumulative'])
    elif how == 'text':
        v['tag'] = d.choose(NUMBERS)
        v['text'] = d.choose(['x', '', '1,5', '1.0.0', '5 km', '--1', '0x5'])
        if v['text'] == '' and v['tag'] in ('@depth', '@magnitude', '$posList'):
            v['text'] = 'x'                       # empty lists are valid
    elif how == 'range':
        v['tag'] = d.choose(sorted(RANGES))
        v['text'] = d.choose(RANGES[v['tag']])
    elif how == 'region':
        v['tag'] = '@tectonicRegion'
        v['text'] = d.choose(['', 'Active', 'active shallow crust', 'Unknown',
                              'Volcanic Crust', 'Subduction Intraslab'])
    elif how == 'type':
        v['tag'] = d.choose(['@truncatedGutenbergRichter', '@magnitude'])
        v['text'] = d.choose(['MW', 'mb', '', 'Ms', 'ml'])
    elif how == 'twice':
        v['tag'] = d.choose(['@tectonicRegion', '@areaBoundary', '@strike', '@dip',
                             '@rake', '@hypocentralDepth', '@depth', '@bValue'])
    return v


def case(d):
    v = damage(d.part(20))
    return {'model': nrmlgen.model(d.part(nrmlgen.MODEL), others=False), 'damage': v,
            'valid before': d.chance(1, 3)}


def join(lines):
    return '\n'.join(lines)


def element(text, tag):
    """Start and end of the element and of its content."""
    a = text.index('<' + tag)
    b = text.index('>', a) + 1
    c = text.index('</' + tag + '>', b)
    return a, b, c, c + len(tag) + 3


def broken_item(lines, v):
    text = join(lines)
    how = v['how']
    if how == 'id':
        k = text.index(' $id=')
        e = text.index('>', k)
        return [text[:k] + text[e:]]
    if how == 'attribute':
        k = text.index('>')
        return [text[:k] + ' colour="red"' + text[k:]]
    if how == 'order':
        a, b, c, e = element(text, '@areaBoundary')
        return [text[:a] + text[e:].replace('</@areaSource>', text[a:e] + '</@areaSource>')]
    a, b, c, e = element(text, v['tag'])
    if v['tag'] == '@magnitude':
        pass
    if how == 'drop':
        return [text[:a] + text[e:]]
    if how == 'rename':
        new = v['as']
        if new[1:].lower() == v['tag'][1:].lower() and new == v['tag']:
            new = '@x'
        rest = text[a + 1 + len(v['tag']):c]
        return [text[:a] + '<' + new + rest + '</' + new + '>' + text[e:]]
    if how in ('text', 'range', 'region'):
        return [text[:b] + v['text'] + text[c:]]
    if how == 'type':
        head = text[a:b]
        k = head.index('type="')
        q = head.index('"', k + 6)
        return [text[:a] + head[:k + 6] + v['text'] + head[q:] + text[b:]]
    if how == 'twice':
        return [text[:e] + text[a:e] + text[e:]]
    raise AssertionError(how)


def document(c):
    m, v = nrmlgen.plain(c['model']), c['damage']
    bad = v['at'] % len(m['items'])
    if v['how'] in ('cut', 'unclosed'):
        whole = nrmlgen.xml(m)
        if v['how'] == 'cut':
            # somewhere before the end tag of the document
            end = whole.rindex(b'</')
            return whole[:end * v['at'] // 100], None
        tags = [b'sourceModel', b'areaSource', b'areaBoundary', b'strike']
        tag = b'</' + (m['prefix'].encode() or b'') + tags[v['at'] % 4] + b'>'
        k = whole.rindex(tag)
        return whole[:k] + whole[k + len(tag):], None
    return nrmlgen.xml(m, lambda lines, i: broken_item(lines, v)
                       if i == bad else lines), bad


def far_down(d):
    c = case(d)
    return dict(c, count=gens.many(d, 1000), damage=dict(c['damage'], at=d.choose([97, 99])))


def check(c):
    if 'count' in c:
        c = dict(c, model=nrmlgen.cycled(c['model'], c['count']))
    text, bad = document(c)
    if c['valid before']:
        with open('c07.xml', 'wb') as f:
            f.write(nrmlgen.xml(c['model']))
        with code('reading the valid model'):
            first = [nrmlgen.attributes(s) for s in NRMLReader('c07.xml', SCHEMA).read()]
        require(len(first) == len(c['model']['items']), '%d sources of a valid model',
                len(first))
    with open('c07.xml', 'wb') as f:
        f.write(text)
    want = nrmlgen.expected(c['model'])
    got = []
    try:
        for source in NRMLReader('c07.xml', SCHEMA).read():
            got.append(nrmlgen.attributes(source))
            require(len(got) <= len(want), 'more sources than elements')
    except Violation:
        raise
    except Exception:
        pass
    else:
        raise Violation('the document was read without an error: %d sources\n%s'
                        % (len(got), text.decode('utf-8', 'replace')[:3000]))
    # (the parser may deliver the violating element before it raises)
    for i, (g, w) in enumerate(zip(got, want[:bad])):
        diff = nrmlgen.difference(g, w)
        require(diff is None, 'source %d: %s', i + 1, diff)
    if c['damage']['run']:
        check_run(text)
    os.remove('c07.xml')
    return {'nontrivial': bad is None or bad > 0, 'how': c['damage']['how'],
            'delivered': len(got), 'run': c['damage']['run'],
            'valid before': c['valid before']}


def check_run(text):
    with open('eq.csv', 'w') as f:
        f.write(gens.csv_text([['1', 'A', '1', '2000', '1', '1', '0', '0', '', '',
                                '0', '0', '', '', '', '10', '', '5', '', '', '',
                                '', '', '', '']]))
    cli.write_config('config.yml', cli.config(
        source_model_file='c07.xml', result_file='result.xml'))
    if os.path.exists('result.xml'):
        os.remove('result.xml')
    outcome = cli.run('-i', 'config.yml')
    require(outcome.error is not None, 'the run did not end with an error')
    require(not os.path.exists('result.xml'), 'the run left a result document')


FACETS = [Facet('violations', lambda: gens.decoded(nrmlgen.MODEL + 30, case), check,
                quick=300, thorough=6000),
          Facet('large', lambda: gens.large(case, 10), check, quick=48, thorough=300),
          Facet('far down', lambda: gens.large(far_down, 1), check, quick=10, thorough=60)]
