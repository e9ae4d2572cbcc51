import decl
import gens
from core import Facet, require

RULE = """Catalogues of up to 36 events with different magnitudes, either
algorithm and any option, each compared with itself in another order, moved by
whole years and along the parallels (also across the 180 degree meridian), and
with up to 6 events added that are at least 3000 km away or 100 years apart.
Non-trivial: at least one cluster."""
ASSUMPTIONS = ["catalogues with an event within 1e-6 (relative) of a space window or 1e-9 years "
               "of a time window are left out, because rounding then decides"]


def case(d):
    algorithm = d.choose(['Gardner-Knopoff', 'Afteran'])
    relation = d.choose(['order', 'moved', 'remote'])
    keys = [d.byte() * 256 + d.byte() for _ in range(decl.MANY * d.scale)]
    years, turn = d.int(-300, 10), d.choose([180.0, 0.0, 360.0, d.float(-360, 360)])
    extra = d.list(1, 6, 24, lambda q: [
        q.bool(), q.int(0, 364), q.rounded(-5, 5, 2), q.rounded(-5, 5, 2),
        q.rounded(3, 7, 1), q.int(0, 40)])
    c = decl.catalogue(d, algorithm, distinct=True)
    c['algorithm'], c['relation'] = algorithm, relation
    n = len(c['events'])
    if relation == 'order':
        c['order'] = sorted(range(n), key=lambda i: (keys[i], i))
    elif relation == 'moved':
        c['years'], c['turn'] = years, round(turn, 3)
    else:
        c['extra'] = []
        e = c['events'][0]
        used = set(x[5] for x in c['events'])
        for apart, k, x, y, m, at in extra:
            if apart:
                row = decl.date((e[0] + 300) * 365 + k) + [e[3], e[4]]
            else:
                row = decl.date(e[0] * 365 + k) + [
                    round((e[3] + 180 + x + 540) % 360 - 180, 4), round(-e[4] + y, 4)]
            m = round(m + 0.0005, 4)
            while m in used:
                m = round(m + 0.001, 4)
            used.add(m)
            c['extra'].append([min(at, n), row + [m]])
    return c


def outcome(c, events, names):
    vcl, main, flag = decl.run(c['algorithm'], c, events)
    found = {}
    for i, v in enumerate(vcl):
        if v:
            found.setdefault(v, []).append((names[i], flag[i]))
    return set(frozenset(x) for x in found.values())


def check(c):
    events = c['events']
    decl.partitions(c['algorithm'], c)          # leaves out knife edges
    first = outcome(c, events, range(len(events)))
    if c['relation'] == 'order':
        second = outcome(c, [events[i] for i in c['order']], c['order'])
    elif c['relation'] == 'moved':
        second = outcome(c, [
            [e[0] + c['years']] + e[1:3]
            + [(e[3] + c['turn'] + 540.0) % 360.0 - 180.0] + e[4:]
            for e in events], range(len(events)))
    else:
        rows = [(i, e) for i, e in enumerate(events)]
        for k, (at, e) in enumerate(c['extra']):
            rows.insert(at, (-1 - k, e))
        both = outcome(c, [e for i, e in rows], [i for i, e in rows])
        second = set(s for s in both if min(i for i, f in s) >= 0)
        mixed = [s for s in both if min(i for i, f in s) < 0 <= max(i for i, f in s)]
        require(not mixed, 'a remote event is in the cluster %s',
                sorted(mixed[0]) if mixed else '')
    require(first == second, '%s: clusters (event, flag) %s and %s', c['relation'],
            sorted(map(sorted, first)), sorted(map(sorted, second)))
    return {'nontrivial': bool(first), c['relation']: True, c['algorithm']: True,
            'several clusters': len(first) > 1,
            'foreshocks': any(f < 0 for s in first for i, f in s)}


FACETS = [Facet('presentation', lambda: gens.decoded(
    decl.SIZE + 2 * decl.MANY + 24 * 6 + 40, case), check, quick=900, thorough=25000),
          Facet('large', lambda: gens.large(case, 5), check, quick=40, thorough=300)]
