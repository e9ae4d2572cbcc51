"""Catalogues for declustering, and the reference algorithms."""

import itertools
import math
import random

import numpy as np

import gens
from core import Discard, code, require

from mtoolkit.scientific.declustering import (afteran_decluster,
                                              gardner_knopoff_decluster,
                                              time_dist_windows)

LENGTH = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
OPTIONS = ['GardnerKnopoff', 'Gruenthal', 'Uhrhammer']
RADIUS = 6371.227
MANY = 36


def date(n):
    """Year, month, day of a day of the calendar with 365 days a year."""
    y, k = divmod(n, 365)
    m = 0
    while k >= LENGTH[m]:
        k -= LENGTH[m]
        m += 1
    return [y, m + 1, k + 1]


def time(event):
    return event[0] + (sum(LENGTH[:event[1] - 1]) + event[2] - 1) / 365.0


def windows(option, m):
    """Space (km) and time (years)."""
    if option == 'GardnerKnopoff':
        return (10 ** (0.1238 * m + 0.983),
                10 ** (0.5409 * m - 0.547 if m < 6.5 else 0.032 * m + 2.7389) / 365)
    if option == 'Gruenthal':
        return (math.exp(1.77 + math.sqrt(0.037 + 1.02 * m)),
                (math.exp(-3.95 + math.sqrt(0.62 + 17.32 * m)) if m < 6.5
                 else 10 ** (2.8 + 0.024 * m)) / 365)
    # C12 decides these windows; they are wrong by a known finding
    s, t = time_dist_windows[option].calc(np.array([m]))
    return float(s[0]), float(t[0])


def distance(a, b):
    x1, y1, x2, y2 = map(math.radians, (a[3], a[4], b[3], b[4]))
    h = math.sin((y1 - y2) / 2) ** 2 + \
        math.cos(y1) * math.cos(y2) * math.sin((x1 - x2) / 2) ** 2
    return 2 * RADIUS * math.asin(min(1.0, math.sqrt(h)))


# ---- generation -------------------------------------------------------------

EVENT = 64


def event_list(d, distinct, option, moving, most=MANY, middle=None):
    """Events around earlier ones, near the limits of their windows. moving:
    days of the Afteran window, or None."""
    n = d.choose([1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 24, most] if d.scale == 1 else [d.int(1, most * d.scale)])
    lon0, lat0 = d.choose([(0.0, 0.0), (179.9, 10.0), (-179.95, -20.0), (12.5, 45.0),
                           (100.0, -60.0), (30.0, 70.0)])
    low, high = d.choose([(3.0, 8.5)] * 6 + [(0.0, 4.0), (1.5, 6.0)])
    day0 = d.choose([2000, 1990, 1900, 1, -500]) * 365 + d.int(0, 364)
    events, days = [], []
    for k in range(n):
        q = d.part(EVENT)
        m = q.choose([q.rounded(low, high, 1)] * 8 + [q.rounded(low + 1, high - 2.5, 1)] * 6
                     + [6.5 if high > 6.5 else high] * 2
                     + [q.rounded(0 if option == 'Gruenthal' else -2, 10, 1)])
        if distinct:
            m = round(m + (0.001 if d.scale == 1 else 0.0001) * k, 4)
        if not events or q.chance(1, 8):
            day = day0 + q.choose([0, q.int(-4000, 4000)])
            lon, lat = lon0 + q.float(-4, 4), lat0 + q.float(-4, 4)
        else:
            j = q.below(len(events))
            parent = events[j]
            scale = max(m, parent[5]) if q.chance(3, 4) else parent[5]
            space, span = windows(option, scale)
            if moving is not None:
                w = moving
                lo = w if w % 365 == 0 and q.bool() else math.ceil(w) - 1
                hi = math.floor(w) + 1
                day = days[j] + int(q.choose([
                    0, 1, -1, lo, hi, -lo, -hi, w * q.float(-1.5, 1.5),
                    w * q.float(-1.1, 1.1), w * q.float(-4, 4)]))
            else:
                w = span * 365
                day = days[j] + q.choose([0, 0, 1, -1, int(w), int(w) + 1, int(-w / 2),
                                          int(-w / 2) - 1, -int(w), -int(w) - 1,
                                          int(w * q.float(-1.5, 1.5)), int(w * q.float(0, 1))])
            far = space * q.choose([0.0, 0.1, 0.5, 0.95, 0.99, 1.01, 1.05, 1.5,
                                    q.float(0, 1), q.float(0, 2)])
            turn = q.float(0, 2 * math.pi)
            lat = parent[4] + far * math.cos(turn) / 111.2
            lon = parent[3] + far * math.sin(turn) / 111.2 / math.cos(math.radians(lat))
        lon = round((lon + 540.0) % 360.0 - 180.0, 4)
        x = date(day)
        if x[1:] == [3, 1] and q.bool():
            x[1:] = [2, 29]                  # the same time in this calendar
        events.append(x + [lon, round(lat, 4), m])
        days.append(day)
    if not distinct:
        events = gens.whole(d, events, 3, 4, 5)
    return d.choose([events, events, sorted(events)])


def catalogue(d, algorithm, distinct=None, most=MANY):
    """A case."""
    c = {'option': d.choose(OPTIONS[:2] * 2 + OPTIONS[2:])}
    if algorithm == 'Afteran':
        c['window'] = d.choose([60.5, 10.5, 30.0, 1.5, 0.5, 100.5, 365.5, 60.0, 60.0, 365.0, 0.0,
                                 730.0])
    else:
        c['foreshocks'] = d.choose([0, 0.5, 1, 0.1, 2.0, d.rounded(0, 1, 2)])
    if distinct is None:
        distinct = d.chance(3, 4)
    c['events'] = event_list(d, distinct, c['option'], c.get('window'), most)
    return c


THOUSANDS = 3000        # events at most of a tiled catalogue


def tiled(d, algorithm):
    """A case with a catalogue of up to thousands of events, made from one of
    up to 12 by moving it so far in time or space that the copies do not
    interact."""
    c = catalogue(d, algorithm, True, 12)
    c['times'] = gens.many(d, d.choose([THOUSANDS, THOUSANDS // 3]) // len(c['events']))
    c['layout'] = d.choose(['blocks', 'mixed', 'shuffled'])
    c['shuffle'] = d.int(0, 10 ** 6)
    return c


def expanded(c):
    """The catalogue, and for every event its number in the small one and in
    which copy it is."""
    base = c['events']
    years = [e[0] for e in base]
    step = max(years) - min(years) + 20
    turn = [(e[3] - base[0][3] + 540.0) % 360.0 - 180.0 for e in base]
    columns = 6 if max(turn) - min(turn) < 20 and all(abs(e[4]) < 80 for e in base) else 1
    end = 2010 - max(years)
    out = []
    for t in range(c['times']):
        for i, e in enumerate(base):
            lon = (e[3] + 60.0 * (t % columns) + 540.0) % 360.0 - 180.0
            out.append(([e[0] + end - step * (t // columns), e[1], e[2], round(lon, 4)]
                        + e[4:], i, t))
    if c['layout'] == 'mixed':
        out.sort(key=lambda x: x[1:])
    elif c['layout'] == 'shuffled':
        random.Random(c['shuffle']).shuffle(out)
    return [x[0] for x in out], [x[1:] for x in out]


SIZE = 61 + EVENT * MANY


# ---- the code under test ------------------------------------------------------

def run(algorithm, c, events=None):
    """cluster numbers, kept catalogue, flags."""
    a = gens.array(c['events'] if events is None else events)
    before = a.copy()
    with code(algorithm):
        if algorithm == 'Afteran':
            vcl, main, flag = afteran_decluster(a, *gens.shortened(
                [c['option'], c['window']], ['GardnerKnopoff', 60.0]))
        else:
            vcl, main, flag = gardner_knopoff_decluster(a, *gens.shortened(
                [c['option'], c['foreshocks']], ['GardnerKnopoff', 0]))
    require(np.array_equal(a, before), 'the catalogue passed in was modified')
    n = len(a)
    vcl, flag = np.asarray(vcl), np.asarray(flag)
    require(vcl.shape == (n,) and flag.shape == (n,), 'shapes %s and %s for %d events',
            vcl.shape, flag.shape, n)
    return [int(v) for v in vcl], np.asarray(main), [int(v) for v in flag]


def clusters(vcl):
    found = {}
    for i, v in enumerate(vcl):
        if v:
            found.setdefault(v, set()).add(i)
    return set(frozenset(s) for s in found.values())


# ---- reference ----------------------------------------------------------------

def orders(events, limit=24):
    """All orders from the largest to the smallest event."""
    groups = {}
    for i, e in enumerate(events):
        groups.setdefault(-e[5], []).append(i)
    number = 1
    for g in groups.values():
        number *= math.factorial(len(g))
    if number > limit:
        raise Discard()
    choices = [list(itertools.permutations(groups[m])) for m in sorted(groups)]
    for parts in itertools.product(*choices):
        yield [i for p in parts for i in p]


def edge(value, limit, tolerance):
    if abs(value - limit) <= tolerance:
        raise Discard()


class Reference(object):
    def __init__(self, events):
        self.events = events
        n = len(events)
        self.times = [time(e) for e in events]
        self.distance = [[distance(a, b) for b in events] for a in events]
        self.n = n
        # then the same day of two years is exactly a number of years apart
        self.exact = all(1024 < e[0] < 2047 for e in events)

    def near(self, i, j, space):
        v = self.distance[i][j]
        edge(v, space, 1e-6 * space)
        return v <= space

    def gap(self, i, j):
        v = self.times[j] - self.times[i]
        return 0.0 if abs(v) < 1e-6 else v

    def gardner_knopoff(self, order, option, foreshocks):
        taken, found = set(), set()
        for k, i in enumerate(order):
            if i in taken:
                continue
            space, span = windows(option, self.events[i][5])
            members = {i}
            for j in order[k + 1:]:
                if j in taken:
                    continue
                if not self.near(i, j, space):
                    continue
                dt = self.gap(i, j)
                if dt:
                    edge(dt, span, 1e-9)
                    edge(-dt, span * foreshocks, 1e-9)
                if -span * foreshocks <= dt <= span:
                    members.add(j)
            if len(members) > 1:
                taken |= members
                found.add(frozenset(members))
        return found

    def afteran(self, order, option, window):
        taken, found = set(), set()
        for k, i in enumerate(order):
            if i in taken:
                continue
            space = windows(option, self.events[i][5])[0]
            inside = [j for j in order[k + 1:]
                      if j not in taken and self.near(i, j, space)]
            members = {i}
            for sign in (1, -1):
                last = 0
                ahead = sorted((sign * int(round(365 * self.gap(i, j))), j) for j in inside)
                for day, j in ahead:
                    if day < 0 or (day == 0 and sign < 0):
                        continue
                    if day - last == window != 0 and not (window % 365 == 0 and self.exact):
                        raise Discard()
                    if day - last > window:
                        break
                    members.add(j)
                    last = day
            if len(members) > 1:
                taken |= members
                found.add(frozenset(members))
        return found


def partitions(algorithm, c, events=None):
    """The possible sets of clusters, several if there are equal magnitudes."""
    events = c['events'] if events is None else events
    ref = Reference(events)
    found = []
    for order in orders(events):
        if algorithm == 'Afteran':
            p = ref.afteran(order, c['option'], c['window'])
        else:
            p = ref.gardner_knopoff(order, c['option'], c['foreshocks'])
        if p not in found:
            found.append(p)
    return found


def show(p):
    return sorted(sorted(s) for s in p)


def decides_tiled(algorithm, c):
    """C13 and C14: every copy has the clusters of the small catalogue."""
    possible = partitions(algorithm, c)
    if len(possible) != 1:
        raise Discard()
    events, origin = expanded(c)
    at = dict((o, i) for i, o in enumerate(origin))
    want = set(frozenset(at[i, t] for i in s) for s in possible[0] for t in range(c['times']))
    vcl, main, flag = run(algorithm, c, events)
    got = clusters(vcl)
    require(got == want, '%d clusters instead of %d; only found: %s, missing: %s', len(got),
            len(want), [[events[i] for i in sorted(s)] for s in list(got - want)[:2]],
            [[events[i] for i in sorted(s)] for s in list(want - got)[:2]])
    return {'nontrivial': len(got) > 1, 'clusters over 100': len(got) > 100,
            'clusters over 255': len(got) > 255, 'events over 1000': len(events) > 1000,
            'without clusters': not got}


def decides(algorithm, c):
    """C13 and C14."""
    want = partitions(algorithm, c)
    vcl, main, flag = run(algorithm, c)
    got = clusters(vcl)
    require(got in want, 'clusters %s instead of %s', show(got),
            ' or '.join(str(show(p)) for p in want[:3]))
    sizes = [len(s) for s in got]
    mags = [e[5] for e in c['events']]
    earlier = any(flag[i] == -1 for i in range(len(mags)))
    return {'nontrivial': bool(got), 'several clusters': len(got) > 1,
            'clusters of 3 or more': any(s > 2 for s in sizes),
            'foreshocks': earlier, 'equal magnitudes': len(set(mags)) < len(mags),
            'events=%s' % ('1' if len(mags) == 1 else '2-6' if len(mags) < 7
                           else '8-12' if len(mags) < 13 else '16+'): True,
            c['option']: True}
