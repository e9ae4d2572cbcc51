import math

import gens
from core import Discard, Facet, code, require

import sut

CALLS = sut.stub_nhlib()

from mtoolkit.geo.simple_fault import SimpleFaultGeo                       # noqa: E402
from mtoolkit.geo.tectonic_region import TectonicRegionBuilder             # noqa: E402
from mtoolkit.scientific.fault_calculator import get_mfd                   # noqa: E402

RULE = """Faults of 2 to 4 points, regions with one or more values, slips,
aseismic coefficients with 0 and values near 1, b-values on both sides of the
moment exponent, maximum magnitude given or from the scaling relation with every
kind of rake, moment scaling relations, and slips and coefficients out of range.
The oracle evaluates the cumulative relation at the bin edges on its own.
Non-trivial: two bins or more, or a refused argument."""
ASSUMPTIONS = ["nhlib, which has the scaling relation, is not to be had: it is replaced by "
               "the published one",
               "bin widths and given magnitudes are binary fractions, so that bin edges "
               "are exact"]


def case(d):
    lon, lat = d.float(-170, 170), d.float(-70, 70)
    trace = [[lon + k * d.choose([0.2, 0.5, 0.05]), lat + d.float(-0.3, 0.3)]
             for k in range(d.int(2, 4))]
    upper = d.choose([0.0, 2.0, d.float(0, 10)])
    c = {'trace': trace, 'upper': upper, 'lower': upper + d.choose([10.0, d.float(1, 30)]),
         'dip': d.choose([90.0, 45.0, d.float(10, 90)]),
         'slip': d.choose([1.0, 10.0, 0.5, d.float(0.01, 50)]),
         'aseismic': d.choose([0.0, 0, 0.5, 0.7, 0.999, d.float(0, 0.99)]),
         'b': d.choose([1.0, 0.9, 0.7, 1.2, 1.49, d.float(0.3, 1.4), 1.75, 2.0]),
         'smod': [d.choose([30.0, 49.0, 29.0, d.float(1, 80)]) for _ in range(2)],
         'dlr': [d.choose([1.25e-5, 1e-4, d.float(1e-6, 1e-3)]) for _ in range(2)],
         'two': d.bool(),
         'rake': d.choose([None, 0.0, 90.0, -90.0, 45.0, 135.0, 180.0, -135.0, d.float(-180, 180)]),
         'scaling': d.choose([None, None, None, [16.05, 1.5], [16.1, 1.4], [15.5, 2.0]])}
    w = d.choose([0.125, 0.25, 0.5, 1.0, 0.0625])
    c['width'] = w
    c['min'] = d.choose([d.int(32, 56), d.int(32, 56), d.int(-16, 32)]) / 8.0
    n = d.choose([1, 2, 3, 5, 8, 12, d.int(1, 128)]) + d.choose([0, 0, 0, 0.5, 0.25, -0.25])
    c['max'] = c['min'] + w * n if d.chance(2, 3) else None
    if c['max'] is not None and d.chance(1, 12):
        c['min'], c['max'] = c['min'] - c['max'], 0.0
    c['wrong'] = d.choose([''] * 14 + ['slip', 'aseismic'])
    if c['wrong'] == 'slip':
        c['slip'] = d.choose([0.0, 0, -1.0, -1e-9])
    elif c['wrong']:
        c['aseismic'] = d.choose([1.0, 1, 1.5, -1e-9, -0.5, 100])
    return c


def cumulative(c, m, mmax, width, smod, dlr, slip):
    """Anderson and Luco (1983), type one."""
    s = c['scaling'] or [16.05, 1.5]
    b, d = c['b'] * math.log(10), s[1] * math.log(10)
    beta = math.sqrt(dlr * 10 ** s[0] / (smod * 1e10 * width * 1e5))
    return (d - b) / b * slip / 10 / beta * math.exp(b * (mmax - m) - d / 2 * mmax)


def check(c):
    fault = SimpleFaultGeo([tuple(p) for p in c['trace']], c['upper'], c['lower'], c['dip'])
    n = 2 if c['two'] else 1
    region = TectonicRegionBuilder.create_new_tect_region(
        '009', {'model': ['WC1994'], 'weight': [1.0]},
        {'value': c['smod'][:n], 'weight': [1.0 / n] * n},
        {'value': c['dlr'][:n], 'weight': [1.0 / n] * n})
    keywords = {}
    if c['max'] is not None:
        keywords['max_mag'] = c['max']
    if c['rake'] is not None:
        keywords['rake'] = c['rake']
    if c['scaling'] is not None:
        keywords['moment_scaling'] = tuple(c['scaling'])

    def run(**changes):
        v = dict(c, **changes)
        return get_mfd(v['slip'], v['aseismic'], region, fault, v['b'], v['min'],
                       v['width'], **keywords)

    if c['wrong']:
        try:
            got = run()
        except Exception:                    # noqa: BLE001
            return {'nontrivial': True, 'refused': True}
        require(False, 'slip %s and coefficient %s give %s', c['slip'], c['aseismic'], got)
    del CALLS[:]
    with code('get_mfd'):
        rates = [float(r) for r in run()]
    if c['max'] is None:
        width = (c['lower'] - c['upper']) / math.sin(math.radians(c['dip']))
        area = float(fault.get_length()) * width
        require(CALLS, 'the scaling relation was not used')
        a, r = CALLS[-1]
        require(abs(a - area) <= 1e-9 * area and r == c['rake'],
                'scaling relation used with %s instead of %s', (a, r), (area, c['rake']))
        mmax = sut.wc1994(area, c['rake'])
        if mmax < c['min'] + 0.01:
            raise Discard()
        bins = (mmax - c['min']) / c['width']
        if abs(bins - round(bins)) < 1e-6:
            raise Discard()
    else:
        require(not CALLS, 'the scaling relation was used although the maximum is given')
        mmax = c['max']
        bins = (mmax - c['min']) / c['width']
    # centres from the minimum up to less than the maximum
    require(len(rates) == math.ceil(bins), '%d bins from %s to %s by %s', len(rates),
            c['min'], mmax, c['width'])
    width = (c['lower'] - c['upper']) / math.sin(math.radians(c['dip']))
    slip = c['slip'] * (1 - c['aseismic'])
    edges = [c['min'] - c['width'] / 2 + k * c['width'] for k in range(len(rates) + 1)]
    values = [cumulative(c, e, mmax, width, c['smod'][0], c['dlr'][0], slip) for e in edges]
    exponent = (c['scaling'] or [16.05, 1.5])[1]
    for k, r in enumerate(rates):
        w = values[k] - values[k + 1]
        require(abs(r - w) <= 1e-9 * max(abs(values[k]), abs(values[k + 1])),
                'rate %d is %r instead of %r', k + 1, r, w)
        if c['b'] < exponent - 1e-6:
            require(r > 0, 'rate %d is %r', k + 1, r)
            require(k == 0 or r < rates[k - 1], 'rates %r, %r do not decrease',
                    rates[k - 1], r)
    with code('get_mfd'):
        double = run(slip=2 * c['slip'])
        half = run(aseismic=(1 + c['aseismic']) / 2)
    for name, other, factor in (('twice the slip', double, 2.0),
                                ('half the seismic part', half, 0.5)):
        require(len(other) == len(rates) and all(
            abs(float(o) - factor * r) <= 1e-9 * abs(r) for o, r in zip(other, rates)),
            'with %s %s instead of %s times %s', name, other, factor, rates)
    return {'nontrivial': len(rates) > 1, 'scaling relation': c['max'] is None,
            'negative magnitudes': c['min'] < 0,
            'b above the exponent': c['b'] > exponent}


FACETS = [Facet('rates', lambda: gens.decoded(164, case), check, quick=2500,
                thorough=60000)]
