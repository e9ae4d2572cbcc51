import copy

import gens
from core import Facet, code, raises, require

from mtoolkit.geo.tectonic_region import TectonicRegionBuilder

RULE = """Sequences of 1 to 6 creations, by name with any of the parameters given
or as new regions, with 0 to 4 values and weights, weights that sum to one
exactly, up to rounding or not, unsupported relations, values that are zero or
negative, weights too few or too many, unknown names; every pair of created
regions is compared. Non-trivial: two or more regions created, or something
refused."""
ASSUMPTIONS = ["sums of weights within 1e-12 of one are one, those 1e-6 or more away are "
               "not",
               "the dictionaries passed are not changed afterwards"]

B = TectonicRegionBuilder
KINDS = {'ACTIVE_SHALLOW_CRUST': ('001', 30.0, 1.25e-5),
         'SUBDUCTION_INTERFACE': ('002', 49.0, 1.25e-5),
         'SUBDUCTION_INTRASLAB': ('003', 49.0, 1.25e-5),
         'STABLE_CONTINENTAL': ('004', 29.0, 1.0e-4),
         'VOLCANIC': ('005', 29.0, 1.25e-5)}
NAMES = sorted(KINDS)
WEIGHTS = {1: [[1.0], [1]],
           2: [[0.5, 0.5], [0.7, 0.3], [0.25, 0.75], [0.9, 0.1], [1.0, 0.0]],
           3: [[0.2, 0.3, 0.5], [0.1, 0.7, 0.2], [1 / 3.0, 1 / 3.0, 1 / 3.0],
               [0.6, 0.3, 0.1], [0.7, 0.2, 0.1]],
           4: [[0.1, 0.2, 0.3, 0.4], [0.4, 0.3, 0.2, 0.1], [0.25] * 4]}


def parameter(q, relation, many=False):
    n = q.choose([1, 1, 2, 3, 4])
    if many:
        n = q.choose([8, 10, 64, 100, 128, 255, 500, 1000])
    key = 'model' if relation else 'value'
    if relation:
        values = [q.choose(['WC1994', 'Peer']) for _ in range(n)]
    else:
        values = [q.choose([30.0, 1e-5, 0.5, 49, q.float(0.001, 100)]) for _ in range(n)]
    weights = [1.0 / n] * n if many else list(q.choose(WEIGHTS[n]))
    wrong = q.choose([''] * 30 + ['sum', 'less', 'more', 'value', 'empty', 'one of'])
    i = q.below(n)
    if wrong == 'sum':
        weights[i] += q.choose([1e-6, -1e-6, 0.1, -0.5, 1.0, -1.0])
    elif wrong == 'less':
        weights = weights[:-1] if q.bool() else [1.0] * (n - 1)
    elif wrong == 'more':
        weights = weights + [0.0]
    elif wrong == 'value':
        values[i] = 'WC1995' if relation else q.choose([0, 0.0, -1e-9, -30.0])
    elif wrong == 'empty':
        values, weights = [], []
    elif wrong == 'one of' and n > 1:
        # a mean of one is not a sum of one
        weights = [1.0] * n
    return {key: values, 'weight': weights}


def operation(q, many=False):
    if q.chance(1, 10):
        return {'name': q.choose(['', 'Volcano', 'volcanic', 'Subduction', '001'])}
    given = {}
    new = q.chance(1, 3)
    ident = q.choose(['001', '002', '005', '006', 'x'])
    name = q.choose(NAMES)
    for k in ('msr', 'smod', 'dlr'):
        p = q.part(40)
        if new or p.bool():
            given[k] = parameter(p, k == 'msr', many)
    if new:
        return {'new': ident, 'given': given}
    return {'kind': name, 'given': given}


def case(d):
    ops = d.list(1, 6, 150, operation)
    again = d.below(6)
    if d.bool():
        ops.append(copy.deepcopy(ops[again % len(ops)]))
    return {'ops': ops}


def many_values(d):
    return {'ops': [operation(d, True) for _ in range(3)]}


def complete(op):
    """identifier and parameters"""
    if 'new' in op:
        return op['new'], dict(op['given'])
    ident, smod, dlr = KINDS[op['kind']]
    p = {'msr': {'model': ['WC1994'], 'weight': [1.0]},
         'smod': {'value': [smod], 'weight': [1.0]},
         'dlr': {'value': [dlr], 'weight': [1.0]}}
    p.update(op['given'])
    return ident, p


def valid(p):
    for k in ('msr', 'smod', 'dlr'):
        values = p[k]['model' if k == 'msr' else 'value']
        if len(values) != len(p[k]['weight']) or abs(sum(p[k]['weight']) - 1) > 1e-7:
            return False
        if not all(v in ('WC1994', 'Peer') if k == 'msr' else v > 0 for v in values):
            return False
    return True


def make(op):
    if 'name' in op:
        return B.create_tect_region_by_name(op['name'])
    given = copy.deepcopy(op['given'])
    if 'new' in op:
        return B.create_new_tect_region(op['new'], given['msr'], given['smod'],
                                        given['dlr'])
    return B.create_tect_region_by_name(getattr(B, op['kind']), **given)


def check(c):
    made, refused, defaults = [], 0, False
    for op in c['ops']:
        if 'name' in op or not valid(complete(op)[1]):
            raises(ValueError, make, op)
            refused += 1
            continue
        with code('creating a region'):
            region = make(op)
        ident, p = complete(op)
        made.append((region, (ident, p)))
        defaults = defaults or 'kind' in op and not op['given']
        with code('first values'):
            first = region.shear_mod_first_value, region.disp_length_ratio_first_value
        want = p['smod']['value'][0], p['dlr']['value'][0]
        require(first == want, 'first values %s instead of %s', first, want)
        # the same parameters given to a new region
        with code('creating a region'):
            again = B.create_new_tect_region(ident, *[copy.deepcopy(p[k]) for k in
                                                      ('msr', 'smod', 'dlr')])
        require(again == region and not again != region,
                'the region does not have the parameters %s %s', ident, p)
        for k in ('msr', 'smod', 'dlr'):
            q = copy.deepcopy(p)
            q[k][sorted(q[k])[0]] = (['Peer', 'Peer', 'WC1994', 'Peer', 'Peer'] * 200)[
                :len(q[k]['weight'])] if k == 'msr' else [77.0 + i for i in
                                                          range(len(q[k]['weight']))]
            if q[k] == p[k]:
                continue
            with code('creating a region'):
                other = B.create_new_tect_region(ident, q['msr'], q['smod'], q['dlr'])
            require(other != region and not other == region,
                    'regions with different %s are equal', k)
    for a, p in made:
        for b, q in made:
            same = p == q
            require((a == b) is same and (a != b) is not same,
                    'regions %s and %s compare wrongly', p, q)
    return {'nontrivial': len(made) > 1 or refused > 0, 'refused': refused > 0,
            'defaults': defaults, 'created=%d' % min(len(made), 4): True}


FACETS = [Facet('regions', lambda: gens.decoded(6 * 150 + 10, case), check, quick=2500,
                thorough=60000),
          Facet('large', lambda: gens.large(case, 5), check, quick=60, thorough=400),
          Facet('many values', lambda: gens.large(many_values, 1), check, quick=60, thorough=600)]
