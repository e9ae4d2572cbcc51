"""Source models: descriptions, their XML text, and what has to be read from
it. A description is a JSON value; numbers are kept as spelled."""

import re
from xml.sax.saxutils import escape, quoteattr

REGIONS = ['Active Shallow Crust', 'Stable Shallow Crust',
           'Subduction Interface', 'Subduction IntraSlab', 'Volcanic']
NAME_CHARS = u"abcXYZ 019-_.,;:()'\"&<>/#\u00e9\u0142\u6771"
ID_CHARS = 'abcxyzABC019._-'


def num(d, lo, hi):
    """The spelling of a number in the range; limits included."""
    v = d.choose([lo, hi] + [None] * 8)
    if v is None:
        v = d.float(lo, hi) if d.bool() else d.rounded(lo, hi, 1)
    texts = [repr(v)]
    for f in ('%.3f', '%e', '%g', '%.12e', '+'):
        if f == '+':
            t = repr(v) if repr(v)[0] == '-' else '+' + repr(v)
        else:
            t = f % v
        if lo <= float(t) <= hi:
            texts.append(t)
    return d.choose(texts[:1] * 4 + texts)


def identifier(d, used):
    text = d.choose(['src', 'zone', 'A', '_', 'z.1-']) + ''.join(
        d.choose(ID_CHARS) for _ in range(d.below(5)))
    while text in used:
        text += 'x'
    used.add(text)
    return text


def wide(d, lo, hi, least=None):
    """Rarely far outside of what is usual, where the schema has no limit."""
    if d.chance(1, 10):
        v = d.choose([1e5, 1e6, 123456.75, 1e9, 2.5e-7, 1e-12, 3e20])
        return repr(v if least == 0.0 or d.bool() else -v)
    return num(d, lo, hi)


def ring(d):
    """Vertices; some rings repeat the first one at the end, or another."""
    n = d.choose([3, 4, 5, 6, 7, d.int(3, 12 * d.top)])
    out = [[num(d, -180.0, 180.0), num(d, -90.0, 90.0)] for _ in range(n)]
    if d.chance(1, 3):
        out.append(list(out[0]))
    if d.chance(1, 6):
        k = d.below(len(out))
        out.insert(k, list(out[k]))
    return out


def source(d, used):
    return {'kind': 'area', 'id': identifier(d, used),
            'name': d.choose(['Quito', 'Zone 1', 'a']) + ''.join(
                d.choose(NAME_CHARS) for _ in range(d.choose([0, 0, 0, 1, 2, 3, 5, 7]))),
            'region': d.choose(REGIONS),
            'srs': d.choose(['urn:ogc:def:crs:EPSG::4326', 'epsg:4326', 'wgs84']),
            'pos': ring(d),
            'a': wide(d, -10.0, 100.0), 'b': wide(d, 0.0, 3.0, 0.0),
            'mmin': num(d, 0.0, 6.0), 'mmax': wide(d, 4.0, 10.0, 0.0),
            'type': d.choose(['ML', 'Mw']),
            'strike': num(d, 0.0, 360.0), 'dip': num(d, 0.0, 90.0),
            'rake': num(d, -180.0, 180.0),
            'magtype': d.choose(['ML', 'Mw']),
            'mags': [wide(d, 0.0, 9.0, 0.0)
                     for _ in range(d.choose([1, 2, 3, 4, d.int(1, 9 * d.top)]))],
            'depths': [wide(d, 0.0, 70000.0, 0.0)
                       for _ in range(d.choose([1, 2, 3, 4, d.int(1, 9 * d.top)]))],
            'hypo': wide(d, 0.0, 50000.0, 0.0)}


SOURCE = 760       # bytes for source()


def alike(d, sources):
    """Some sources have part of an earlier one: zones of a kind, or in one
    place, or with rings that begin alike."""
    for k in range(1, min(len(sources), 5)):
        if not d.chance(1, 3):
            continue
        s, old = sources[k], sources[d.below(k)]
        for f in ('name', 'region', 'srs', 'a', 'b', 'mmin', 'mmax', 'type', 'strike',
                  'dip', 'rake', 'magtype', 'hypo'):
            if d.chance(1, 6):
                s[f] = old[f]
        for f in ('pos', 'mags', 'depths'):
            if d.bool():
                n = len(s[f])
                keep = d.choose([n, n - 1, n // 2, 2, 1])
                s[f] = [list(v) if f == 'pos' else v for v in old[f][:keep]] + s[f][keep:]


def other(d, used):
    return {'kind': d.choose(['point', 'simple', 'complex']),
            'id': identifier(d, used), 'x': num(d, -170.0, 170.0)}


def model(d, lo=1, hi=4, others=True):
    used = set()
    nrml, sm = identifier(d.part(40), used), identifier(d.part(40), used)
    head = d.part(40)
    sources = d.list(lo, hi, SOURCE, lambda p: source(p, used))
    alike(d.part(66), sources)
    extra = d.list(0, 4, 60, lambda p: [other(p, used), p.below(8)])
    items = list(sources)
    if others:
        for o, at in extra:
            items.insert(min(at, len(items)), o)
    return {'nrml': nrml, 'sm': sm, 'items': items,
            'config': not head.bool(), 'prefix': head.choose(['', '', 'n:', 'nrml:']),
            'gml': head.choose(['gml', 'gml', 'g']), 'comments': head.bool(),
            'description': head.chance(1, 4), 'sep': head.choose([' ', '\n', '  ', '\t ']),
            'indent': head.choose(['', '\n', '\n  ']),
            'inside': head.choose([0, 0, 0, 1]) and head.int(1, 30),
            'cdata': head.chance(1, 6), 'bounded': head.chance(1, 5),
            'encoding': head.choose(['utf-8', 'utf-8', 'utf-8', 'utf-16', 'iso-8859-1',
                                     'us-ascii', 'utf-8-sig'])}


def plain(m):
    """The same model in a document that can be worked on as text."""
    return dict(m, comments=False, inside=0, cdata=False, encoding='utf-8')


def inside(line, k):
    """Comments and processing instructions within some of the values."""
    def change(match):
        nonlocal k
        k += 1
        text, note = match.group(1), '<?x 7.5?>' if k % 7 == 0 else '<!-- 7.5 -->'
        space = re.search(r'\s', text)
        if k % 5 == 3 and space:
            text = text[:space.end()] + note + text[space.end():]
        else:
            text = ['', note][k % 5 in (1, 4)] + text + ['', note][k % 5 in (2, 4)]
        return '>' + text + '</'
    return re.sub(r'>([^<>]+)</', change, line), k


def cycled(m, count):
    """That many items, from a few; identifiers are unique."""
    few = m['items']
    return dict(m, items=[dict(few[i % len(few)], id='%s.%d' % (few[i % len(few)]['id'], i))
                          for i in range(count)])


MODEL = 4 * SOURCE + 466


def rates(s):
    return ('<@truncatedGutenbergRichter type=%s>'
            '<@aValueCumulative>%s</@aValueCumulative><@bValue>%s</@bValue>'
            '<@minMagnitude>%s</@minMagnitude><@maxMagnitude>%s</@maxMagnitude>'
            '</@truncatedGutenbergRichter>'
            % (quoteattr(s['type']), s['a'], s['b'], s['mmin'], s['mmax']))


def area_xml(s, m):
    sep = m['sep']
    return [
        '<@areaSource $id=%s>' % quoteattr(s['id']),
        '<$description>some text</$description>' if m['description'] else '',
        '<$name>%s</$name>' % (
            '<![CDATA[%s]]>' % s['name']
            if m.get('cdata') and m['encoding'][:3] == 'utf' and ']]>' not in s['name']
            else escape(s['name'])),
        '<$boundedBy><$Envelope srsName="other"><$lowerCorner>1 2</$lowerCorner>'
        '<$upperCorner>3 4</$upperCorner></$Envelope></$boundedBy>'
        if m.get('bounded') else '',
        '<@tectonicRegion>%s</@tectonicRegion>' % escape(s['region']),
        '<@areaBoundary>', '<$Polygon>', '<$exterior>',
        '<$LinearRing srsName=%s>' % quoteattr(s['srs']),
        '<$posList>%s</$posList>' % sep.join(t for p in s['pos'] for t in p),
        '</$LinearRing>', '</$exterior>', '</$Polygon>', '</@areaBoundary>',
        '<@ruptureRateModel>', rates(s),
        '<@strike>%s</@strike>' % s['strike'], '<@dip>%s</@dip>' % s['dip'],
        '<@rake>%s</@rake>' % s['rake'], '</@ruptureRateModel>',
        '<@ruptureDepthDistribution>',
        '<@magnitude type=%s>%s</@magnitude>' % (quoteattr(s['magtype']),
                                                 sep.join(s['mags'])),
        '<@depth>%s</@depth>' % sep.join(s['depths']),
        '</@ruptureDepthDistribution>',
        '<@hypocentralDepth>%s</@hypocentralDepth>' % s['hypo'],
        '</@areaSource>']


GR = {'type': 'ML', 'a': '5.0', 'b': '0.8', 'mmin': '5.0', 'mmax': '7.0'}


def other_xml(s):
    line = '<$LineString><$posList>%s 40.0 1.0 %s 41.0 2.0</$posList></$LineString>' \
        % (s['x'], s['x'])
    head = ('<$name>other</$name><@tectonicRegion>Volcanic</@tectonicRegion>')
    if s['kind'] == 'point':
        return ['<@pointSource $id="%s">' % s['id'], head,
                '<@location><$Point srsName="epsg:4326"><$pos>%s 38.0</$pos>'
                '</$Point></@location>' % s['x'],
                '<@ruptureRateModel>', rates(GR),
                '<@strike>0</@strike><@dip>90</@dip><@rake>0</@rake>',
                '</@ruptureRateModel>',
                '<@ruptureDepthDistribution><@magnitude type="ML">6.0</@magnitude>'
                '<@depth>5.0</@depth></@ruptureDepthDistribution>',
                '<@hypocentralDepth>5.0</@hypocentralDepth>', '</@pointSource>']
    if s['kind'] == 'simple':
        return ['<@simpleFaultSource $id="%s">' % s['id'], head,
                '<@rake>90.0</@rake>', rates(GR),
                '<@simpleFaultGeometry $id="%s.g">' % s['id'],
                '<@faultTrace>', line, '</@faultTrace>', '<@dip>30</@dip>',
                '<@upperSeismogenicDepth>1</@upperSeismogenicDepth>'
                '<@lowerSeismogenicDepth>12</@lowerSeismogenicDepth>',
                '</@simpleFaultGeometry>', '</@simpleFaultSource>']
    return ['<@complexFaultSource $id="%s">' % s['id'], head,
            '<@rake>90.0</@rake>',
            '<@evenlyDiscretizedIncrementalMFD binSize="0.1" minVal="6.0">0.1 0.2'
            '</@evenlyDiscretizedIncrementalMFD>',
            '<@complexFaultGeometry><@faultEdges>',
            '<@faultTopEdge>', line, '</@faultTopEdge>',
            '<@faultBottomEdge>', line, '</@faultBottomEdge>',
            '</@faultEdges></@complexFaultGeometry>', '</@complexFaultSource>']


def xml(m, change=None):
    """The document as bytes. change(lines, index of the item) may alter the
    lines of an item."""
    p, g = m['prefix'], m['gml'] + ':'
    lines = ['<@nrml %s="http://openquake.org/xmlns/nrml/0.3" '
             'xmlns:%s="http://www.opengis.net/gml" $id=%s>'
             % ('xmlns:' + p[:-1] if p else 'xmlns', m['gml'], quoteattr(m['nrml'])),
             '<@sourceModel $id=%s>' % quoteattr(m['sm'])]
    if m['config']:
        lines.append('<@config/>')
    for i, s in enumerate(m['items']):
        part = area_xml(s, m) if s['kind'] == 'area' else other_xml(s)
        part = [line for line in part if line]
        if change:
            part = change(part, i)
        if m.get('inside'):
            k, noted = m['inside'] + i, []
            for line in part:
                line, k = inside(line, k)
                noted.append(line)
            part = noted
        if m['comments']:
            part.insert(0, '<!-- <areaSource> %d -->' % i)
        lines.extend(part)
    lines += ['</@sourceModel>', '</@nrml>']
    out = m['indent'].join(lines)
    # @ and $ stand for the namespaces in tags and attributes only
    out = out.replace('<@', '<' + p).replace('</@', '</' + p)
    out = out.replace('<$', '<' + g).replace('</$', '</' + g).replace(' $id=', ' %sid=' % g)
    code = m.get('encoding', 'utf-8')
    head = u'<?xml version="1.0" encoding="%s"?>\n' % code.replace('-sig', '')
    return (head + out + '\n').encode(code, 'xmlcharrefreplace')


def expected(m):
    """The attributes of every area source, as nested tuples."""
    return [as_read(s, m) for s in m['items'] if s['kind'] == 'area']


def as_read(s, m):
    return {'nrml_id': m['nrml'], 'source_model_id': m['sm'],
            'area_source_id': s['id'], 'name': s['name'],
            'tectonic_region': s['region'],
            'srs': s['srs'], 'pos': [(float(x), float(y)) for x, y in s['pos']],
            'gr': (float(s['a']), float(s['b']), float(s['mmin']),
                   float(s['mmax']), s['type']),
            'strike': float(s['strike']), 'dip': float(s['dip']),
            'rake': float(s['rake']), 'magtype': s['magtype'],
            'mags': [float(t) for t in s['mags']],
            'depths': [float(t) for t in s['depths']],
            'hypo': float(s['hypo'])}


def attributes(a):
    """The same of an AreaSource object."""
    t = a.rupture_rate_model.truncated_gutenberg_richter
    return {'nrml_id': a.nrml_id, 'source_model_id': a.source_model_id,
            'area_source_id': a.area_source_id, 'name': a.name,
            'tectonic_region': a.tectonic_region,
            'srs': a.area_boundary.srs_name,
            'pos': [(p.lon, p.lat) for p in a.area_boundary.pos_list],
            'gr': (t.a_value, t.b_value, t.min_magnitude, t.max_magnitude,
                   t.type_tgr),
            'strike': a.rupture_rate_model.strike,
            'dip': a.rupture_rate_model.dip, 'rake': a.rupture_rate_model.rake,
            'magtype': a.rupture_depth_dist.magnitude.type_mag,
            'mags': list(a.rupture_depth_dist.magnitude.values),
            'depths': list(a.rupture_depth_dist.depth),
            'hypo': a.hypocentral_depth}


def area_source(s, m, number=float):
    """An AreaSource object of this description."""
    from mtoolkit import source_model as sm
    e = as_read(s, m)
    a = sm.AreaSource()
    for f in ('nrml_id', 'source_model_id', 'area_source_id', 'name',
              'tectonic_region'):
        setattr(a, f, e[f])
    a.area_boundary = sm.AREA_BOUNDARY(e['srs'], [
        sm.POINT(number(x), number(y)) for x, y in e['pos']])
    gr = sm.TRUNCATED_GUTEN_RICHTER(*([number(v) for v in e['gr'][:4]] + [e['gr'][4]]))
    a.rupture_rate_model = sm.RUPTURE_RATE_MODEL(
        gr, number(e['strike']), number(e['dip']), number(e['rake']))
    a.rupture_depth_dist = sm.RUPTURE_DEPTH_DISTRIB(
        sm.MAGNITUDE(e['magtype'], [number(v) for v in e['mags']]),
        [number(v) for v in e['depths']])
    a.hypocentral_depth = number(e['hypo'])
    return a


def difference(got, want):
    for k in want:
        if got[k] != want[k]:
            return '%s is %r instead of %r' % (k, got[k], want[k])
    return None
