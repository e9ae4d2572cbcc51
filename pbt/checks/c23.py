import math

import numpy as np

import gens
from core import Facet, code, require

from mtoolkit.scientific.recurrence import weichert

RULE = """2 to 20 magnitude bins with counts that fall off exponentially or at once, at
random or are mostly zero, and observation periods that grow with magnitude or
vary at random; the oracle maximises the likelihood by bisection of its
derivative. Non-trivial: three bins with events and differing periods."""
ASSUMPTIONS = ["b-value to 1e-4, error and rate to 1e-3 (relative): the iteration stops at "
               "steps of 1e-5",
               "where plain Newton iteration does not converge an error "
               "is accepted", "observation periods are positive"]


def case(d):
    n = d.int(2, 20 * d.scale)
    width = d.choose([0.1, 0.2, 0.5, 0.25])
    low = d.int(*d.choose([(20, 60), (20, 60), (-20, 20)])) / 10
    shape = d.choose(['decay', 'decay', 'decay', 'random', 'sparse', 'one', 'none', 'steep'])
    beta = d.choose([1.5, 2.3, 1.0, 3.0])
    total = d.choose([10, 100, 1000])
    counts = []
    for k in range(n):
        q = d.part(8)
        if shape == 'decay':
            x = total * math.exp(-beta * width * k) * q.float(0.3, 1.7)
            counts.append(int(x))
        elif shape == 'random':
            counts.append(q.int(0, 50))
        elif shape == 'sparse':
            counts.append(q.choose([0, 0, 0, 1, 2]))
        else:
            counts.append(0)
    if shape == 'steep':                     # many steps of the iteration
        width = 0.5
        counts[0], counts[1] = d.int(1, 9) * 10 ** d.int(3, 6), d.choose([1, 2, 10])
    if shape == 'one':
        counts[d.choose([0, 0, n - 1, d.below(n)])] = d.int(1, 100)
    if d.chance(1, 8):                       # whole magnitudes
        width, low = 1.0, math.floor(low) + 0.5
    periods = [float(d.part(3).int(1, 300)) for k in range(n)]
    kind = d.choose(['grow', 'grow', 'random', 'equal', 'jump'])
    if kind == 'grow':
        periods.sort()
    elif kind == 'jump':                    # overshoots, or does not converge
        k = d.int(1, n)
        periods = [d.choose([1.0, 2.0, 0.5])] * k + sorted(periods[k:])
    elif kind == 'equal':
        periods = periods[:1] * n
    return {'centres': [low + width * (k + 0.5) for k in range(n)], 'counts': counts,
            'periods': periods, 'factor': d.choose([2.0, 0.1, 365.0]),
            'reference': d.choose([0.0, low, low + 1, 4.0, 1.1, -0.5]),
            'start': d.choose([[1.5, 1e-5]] * 3 + [
                [1.5, 1e-7], [d.float(0.5, 3.5), 1e-5], [2.0, 1e-6],
                # just before the exponential function overflows
                [-d.float(700.0, 710.0) / max(1.0, low + width * (n - 0.5)), 1e-5]])}


class Likelihood(object):
    def __init__(self, c):
        self.m, self.n, self.t = c['centres'], c['counts'], c['periods']
        self.total = sum(self.n)
        self.start = c['start'][0]

    def moments(self, beta):
        """Mean and variance of the magnitude."""
        top = max(-beta * m for m in self.m)
        w = [t * math.exp(-beta * m - top) for m, t in zip(self.m, self.t)]
        s = sum(w)
        mean = sum(x * m for x, m in zip(w, self.m)) / s
        return mean, sum(x * (m - mean) ** 2 for x, m in zip(w, self.m)) / s

    def mean(self):
        return sum(m * n for m, n in zip(self.m, self.n)) / float(self.total)

    def fixed(self):
        used = [k for k, n in enumerate(self.n) if n]
        return bool(used) and used not in ([0], [len(self.n) - 1])

    def solve(self):
        want = self.mean()
        lo, hi = -1000.0, 1000.0
        for _ in range(200):
            mid = (lo + hi) / 2
            if self.moments(mid)[0] > want:
                lo = mid
            else:
                hi = mid
        return (lo + hi) / 2

    def newton(self):
        """Whether plain Newton iteration finds the maximum."""
        beta, want = self.start, self.mean()
        for _ in range(100):
            mean, var = self.moments(beta)
            if not var > 1e-12:
                return False
            step = (mean - want) / var
            beta += step
            if abs(beta) > 100:
                return False
            if abs(step) <= 1e-6:
                return True
        return False


def call(c, factor=1.0):
    t = gens.array([x * factor for x in c['periods']])
    m, n = gens.array(c['centres']), gens.array(c['counts'])
    with np.errstate(all='ignore'):
        try:
            v = weichert(t, m, n, *gens.shortened(
                [c['reference']] + c['start'], [0.0, 1.5, 1e-5]))
        except ValueError:
            return None
        except ZeroDivisionError:
            return None
    require(len(v) == 4, '%d results', len(v))
    return [float(x) for x in v]


def near(a, b, tol):
    return abs(a - b) <= tol * max(abs(b), 1e-300)


def check(c):
    like = Likelihood(c)
    with code('weichert'):
        got = call(c)
    if not like.fixed():
        require(got is None or not all(map(math.isfinite, got)),
                'counts %s have no maximum, but the result is %s', c['counts'], got)
        return {'nontrivial': True, 'no maximum': True}
    if got is None and not like.newton():
        return {'nontrivial': False, 'does not converge': True}
    require(got is not None, 'no result for counts %s', c['counts'])
    beta = like.solve()
    mean, var = like.moments(beta)
    b = beta / math.log(10)
    require(abs(got[0] - b) <= 1e-4 * (1 + abs(b)), 'b-value %r instead of %r', got[0], b)
    error = 1 / math.sqrt(like.total * var) / math.log(10)
    require(near(got[1], error, 1e-3), 'error %r instead of %r', got[1], error)
    top = max(-beta * m for m in c['centres'])
    e = [math.exp(-beta * m - top) for m in c['centres']]
    rate = like.total * sum(e) / sum(x * t for x, t in zip(e, c['periods']))
    lowest = c['centres'][0] - (c['centres'][1] - c['centres'][0]) / 2
    if c['reference']:
        rate *= math.exp(-beta * (c['reference'] - lowest))
    require(near(got[2], rate, 1e-3), 'rate %r instead of %r', got[2], rate)
    if c['reference']:
        want = got[2] / math.sqrt(like.total)
        require(near(got[3], want, 1e-6), 'error of the rate %r instead of %r', got[3], want)
    with code('weichert'):
        other = call(c, c['factor'])
    require(other is not None and abs(other[0] - got[0]) <= 1e-4 * (1 + abs(b))
            and near(other[2] * c['factor'], got[2], 1e-3),
            '%r times the periods: %s instead of %s', c['factor'], other, got)
    used = sum(1 for n in c['counts'] if n)
    return {'nontrivial': used > 2 and len(set(c['periods'])) > 1,
            'negative b': b < 0, 'equal periods': len(set(c['periods'])) == 1,
            'other start': c['start'][0] != 1.5,
            'no reference': not c['reference'],
            'negative reference': c['reference'] < 0}


FACETS = [Facet('solution', lambda: gens.decoded(20 * 11 + 54, case), check, quick=1000,
                thorough=30000),
          Facet('large', lambda: gens.large(case, 3), check, quick=120, thorough=2000)]
