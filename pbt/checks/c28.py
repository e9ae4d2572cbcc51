import math
import warnings

import numpy as np

import gens
from core import Discard, Facet, code, random_state, require

from mtoolkit.scientific.maximum_magnitude import (cum_mo_uncertainty,
                                                   cumulative_moment)

RULE = """Catalogues of 2 to 20 events with errors of none, one, some or all of
the magnitudes, and seeds with 0 among them: exact relations (no errors, equal
and different seeds, no seed), and the distribution over 300 seeds of the mean
and deviation from 2 to 5 resampled catalogues and of one from 12000, against an own simulation;
and the distribution of 12000 single resampled catalogues against the normal one.
Non-trivial: some event has an error."""
ASSUMPTIONS = ["statistical bounds are at least six standard errors wide",
               "the moment itself is the code's (C27)"]


def catalogue(d, most):
    how = d.choose(['all', 'some', 'one', 'equal'])
    span = d.choose([5, 20, 50])
    end = d.choose([2009, 2009, 20, -300])
    events = d.list(2, most, 20, lambda q: [
        end - q.int(0, span), q.int(40, 75) / 10,
        q.choose([0.1, 0.3, 0.5, 0.1, 0.3, 0.5, 1.2]) if how != 'some' or q.bool() else 0.0])
    if how == 'one':
        k = d.below(len(events))
        events = [e[:2] + [e[2] if i == k else 0.0] for i, e in enumerate(events)]
    elif how == 'equal':
        events = [e[:2] + [0.2] for e in events]
    if len(set(y for y, m, s in events)) == 1:
        events[0][0] -= 3
    return events


def arrays(events):
    a = gens.array(events)
    return a[:, 0].copy(), a[:, 1].copy(), a[:, 2].copy()


def call(events, n, seed=None):
    a = arrays(events)
    with code('cum_mo_uncertainty'):
        v = cum_mo_uncertainty(*a, number_bootstraps=n, seed=seed)
    require(all(np.array_equal(x, y) for x, y in zip(a, arrays(events))),
            'the arguments were modified')
    return float(v[0]), float(v[1])


def exact(d):
    return {'events': catalogue(d, 20), 'n': d.choose([2, 3, 10, 50]) if d.scale <= 20 else d.int(2, 400),
            'seeds': [d.choose([0, 1, d.int(0, 10 ** 6)]), d.int(0, 10 ** 6)]}


def check_exact(c):
    events, n = c['events'], c['n']
    year, mag, sigma = arrays(events)
    with code('cumulative_moment'):
        plain = float(cumulative_moment(year, mag))
    if not math.isfinite(plain):
        raise Discard()
    for seed in (None, c['seeds'][0]):
        mean, deviation = call([e[:2] + [0.0] for e in events], n, seed)
        require(abs(mean - plain) <= 1e-9 and abs(deviation) <= 1e-9,
                'without errors: %r with deviation %r, the plain estimate is %r', mean,
                deviation, plain)
    np.random.seed(c['seeds'][1] % 1000)
    state = random_state()
    first = call(events, n, c['seeds'][0])
    require(random_state() == state,
            'with a seed the random numbers of other calculations are not what they were')
    np.random.seed(c['seeds'][1] % 1000)
    np.random.normal()
    require(call(events, n, c['seeds'][0]) == first,
            'seed %d does not reproduce the result', c['seeds'][0])
    errors = any(sigma)
    if errors and all(math.isfinite(x) for x in first):
        np.random.seed()
        require(call(events, n) != call(events, n), 'the same result twice without seed')
        if c['seeds'][0] != c['seeds'][1]:
            require(call(events, n, c['seeds'][1]) != first,
                    'seeds %s give the same result', c['seeds'])
    return {'nontrivial': bool(errors), 'seed 0': c['seeds'][0] == 0,
            'one error': sum(1 for s in sigma if s) == 1}


def spread(d):
    return {'events': catalogue(d, 12), 'n': d.choose([2, 3, 5]), 'seed': d.int(0, 10 ** 6)}


def simulate(events, number, seed):
    """Own estimates of resampled catalogues."""
    year, mag, sigma = arrays(events)
    rng = np.random.RandomState(seed)
    mags = mag + sigma * rng.normal(size=(number, len(mag)))
    moment = 10 ** (9.05 + 1.5 * mags)
    first = int(year.min())
    release = np.zeros((number, int(year.max()) - first + 1))
    for k, y in enumerate(year):
        release[:, int(y) - first] += moment[:, k]
    d = np.cumsum(release, axis=1) - np.cumsum(
        np.repeat(release.mean(axis=1)[:, None], release.shape[1], axis=1), axis=1)
    s = np.abs(d.max(axis=1)) + np.abs(d.min(axis=1))
    return 2.0 / 3 * (np.log10(s) - 9.05)


SEEDS = 300


def check_spread(c):
    own = simulate(c['events'], 6000, c['seed'])
    mean, deviation = own.mean(), own.std(ddof=1)
    if not deviation > 1e-6:
        raise Discard()
    z = (own - mean) / deviation
    heavy = max(float(np.mean(z ** 4)), 1.0)
    if heavy > 8:
        raise Discard()
    n = c['n']
    got = np.array([call(c['events'], n, c['seed'] + k) for k in range(SEEDS)])
    error = deviation / math.sqrt(n * SEEDS) + deviation / math.sqrt(len(own))
    require(abs(got[:, 0].mean() - mean) <= 6 * error,
            'mean %r over %d runs of %d, the simulation gives %r +- %r', got[:, 0].mean(),
            SEEDS, n, mean, error)
    # the variance of the mean is that of one estimate over n
    ratio = got[:, 0].var(ddof=1) * n / deviation ** 2
    width = 6 * math.sqrt((heavy + 1) / SEEDS)
    require(1 / (1 + width) <= ratio <= 1 + width,
            'the means over %d catalogues have %r times the variance expected', n, ratio)
    # and the mean of the squared sample deviations is that variance
    squares = got[:, 1] ** 2
    ratio = squares.mean() / deviation ** 2
    width = 6 * (squares.std() / squares.mean() / math.sqrt(SEEDS) + 0.04) if \
        squares.mean() else 0.1
    require(1 / (1 + width) <= ratio <= 1 + width,
            'the squared deviations over %d catalogues are %r times those expected', n, ratio)
    return {'nontrivial': True, 'catalogues=%d' % n: True}


BOOTSTRAPS = 12000


def precise(d):
    """One call with many resampled catalogues of few years."""
    events = [[2000 + q.int(0, 3), q.int(40, 75) / 10, q.choose([0.1, 0.2, 0.4, 0.0])]
              for q in [d.part(6) for _ in range(d.int(2, 6))]]
    events[0][0], events[1][0] = 2000, 2003
    events[d.below(len(events))][2] = 0.3
    return {'events': events, 'seed': d.int(0, 10 ** 6)}


def check_precise(c):
    own = simulate(c['events'], 150000, c['seed'])
    mean, deviation = own.mean(), own.std(ddof=1)
    if not deviation > 1e-6:
        raise Discard()
    got = call(c['events'], BOOTSTRAPS, c['seed'])
    n = 1.0 / BOOTSTRAPS + 1.0 / len(own)
    error = deviation * math.sqrt(n)
    require(abs(got[0] - mean) <= 6 * error, 'mean %r over %d catalogues, the simulation '
            'gives %r +- %r', got[0], BOOTSTRAPS, mean, error)
    heavy = max(float(np.mean(((own - mean) / deviation) ** 4)), 1.5)
    error = deviation * math.sqrt((heavy - 1) / 4 * n)
    require(abs(got[1] - deviation) <= 7 * error, 'deviation %r over %d catalogues, the '
            'simulation gives %r +- %r', got[1], BOOTSTRAPS, deviation, error)
    return {'nontrivial': True, 'one error': sum(1 for e in c['events'] if e[2]) == 1}


SAMPLES = 12000


def single(d):
    """A dominating event with an error among negligible ones."""
    first = d.int(-500, 2000)
    years = [first] + [first + 1 + d.below(8) for _ in range(d.int(1, 3))]
    events = [[y, d.int(10, 20) / 10, 0.0] for y in years]
    k = d.below(len(events))
    events[k][1:] = [d.int(65, 80) / 10, d.choose([0.1, 0.3, 0.5])]
    if d.chance(1, 3):                       # a large error, so smaller others
        events = [[y, m if i == k else m - 10, s] for i, (y, m, s) in enumerate(events)]
        events[k][2] = 1.2
    return {'events': events, 'row': k, 'seed': d.int(0, 10 ** 6), 'seeded': d.bool()}


def check_single(c):
    """Every resampled catalogue on its own."""
    events = c['events']
    year, mag, sigma = c['events'][c['row']]
    span = max(e[0] for e in events) - min(e[0] for e in events) + 1
    np.random.seed(c['seed'])
    arguments = arrays(events)
    with code('cum_mo_uncertainty'), warnings.catch_warnings():
        # of one catalogue there is no deviation
        warnings.simplefilter('ignore')
        got = np.array([cum_mo_uncertainty(
            *arguments, number_bootstraps=1,
            seed=c['seed'] + k if c['seeded'] else None)[0] for k in range(SAMPLES)])
    z = np.sort(got - mag - math.log10(1 - 1.0 / span) / 1.5) / sigma
    normal = np.array([0.5 * math.erfc(-x / math.sqrt(2)) for x in z])
    steps = np.arange(SAMPLES + 1.0) / SAMPLES
    distance = max(abs(normal - steps[:-1]).max(), abs(normal - steps[1:]).max())
    require(distance * math.sqrt(SAMPLES) <= 3, 'errors of a magnitude are not normal: '
            'distance %r over %d catalogues', distance, SAMPLES)
    for limit, low, high in ((2, 380, 730), (2.99, 6, 75), (3.01, 6, 75),
                             (6.5, 0, 0)):
        count = int(np.sum(abs(z) > limit))
        require(low <= count <= high, '%d of %d errors of a magnitude beyond %d deviations',
                count, SAMPLES, limit)
    return {'nontrivial': True, 'seeded': c['seeded']}


FACETS = [Facet('exact', lambda: gens.decoded(20 * 20 + 30, exact), check_exact, quick=300,
                thorough=8000),
          Facet('distribution', lambda: gens.decoded(12 * 20 + 30, spread), check_spread,
                quick=30, thorough=600),
          Facet('precise', lambda: gens.decoded(6 * 6 + 20, precise), check_precise,
                quick=8, thorough=200),
          Facet('each', lambda: gens.decoded(40, single), check_single, quick=6, thorough=100),
          Facet('large', lambda: gens.large(exact, 20), check_exact, quick=48, thorough=300),
          Facet('larger', lambda: gens.large(exact, 150), check_exact, quick=10, thorough=80)]
