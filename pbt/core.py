"""Property-based checking: facets, their driver, evidence and replay.

A property is decided by one or more facets. A facet has a Hypothesis strategy
that makes plain JSON cases and a check that runs the code under test on a case
and compares it with an oracle. The check raises Violation when the property
does not hold; any exception of the code under test on a valid case, inside a
`with code():` block, counts as one. Any other exception is an error of the
check itself."""

import hashlib
import io
import json
import os
import signal
import sys
import time
import traceback
import warnings
from contextlib import contextmanager

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = 25.0          # seconds of CPU for one case, far above what any needs
SHRINK_WALL = 40.0        # seconds spent on shrinking a failure


class Violation(Exception):
    """The property does not hold on this case."""


class Hang(BaseException):
    """The code under test does not come to an end on this case."""


class StopShrinking(BaseException):
    pass


class Facet(object):
    def __init__(self, name, strategy, check, quick=200, thorough=None):
        self.name = name
        self.strategy = strategy          # () -> strategy
        self.check = check                # case -> dict of classes or None
        self.quick = quick
        self.thorough = thorough or quick * 20


@contextmanager
def code(what="the code under test"):
    """Exceptions of the code under test are violations."""
    try:
        yield
    except (Violation, Hang):
        raise
    except Exception as e:                # noqa: BLE001
        tb = traceback.format_exc(limit=-6)
        raise Violation("%s raised %s: %s\n%s"
                        % (what, type(e).__name__, e, tb)) from None


def require(condition, message, *args):
    if not condition:
        raise Violation(message % args if args else message)


def raises(kinds, function, *args, **kwargs):
    """The exception function raises, which has to be one of kinds."""
    try:
        result = function(*args, **kwargs)
    except kinds as e:
        return e
    except (Violation, Hang):
        raise
    except Exception as e:                # noqa: BLE001
        raise Violation("raised %s (%s) instead of %s"
                        % (type(e).__name__, e, kinds)) from None
    raise Violation("returned %.200r instead of raising %s" % (result, kinds))


class Discard(Exception):
    """The oracle cannot decide this case (a floating-point knife edge)."""


class Stats(object):
    def __init__(self):
        self.evaluations = 0
        self.discarded = 0
        self.hashes = set()
        self.classes = {}
        self.samples = {}
        self.per_facet = {}
        self.known = {}

    def note(self, facet, case, classes):
        self.evaluations += 1
        f = self.per_facet.setdefault(
            facet, {"evaluations": 0, "nontrivial": 0, "classes": {}})
        f["evaluations"] += 1
        nontrivial = True
        if classes is None:
            classes = {}
        nontrivial = classes.pop("nontrivial", True)
        for k, v in classes.items():
            if v:
                key = k if v is True else "%s=%s" % (k, v)
                f["classes"][key] = f["classes"].get(key, 0) + 1
        if nontrivial:
            f["nontrivial"] += 1
            text = json.dumps([facet, case], sort_keys=True)
            h = hashlib.sha1(text.encode("utf-8", "surrogatepass")).hexdigest()[:16]
            if h not in self.hashes:
                self.hashes.add(h)
                s = self.samples.setdefault(facet, [])
                n = len(self.hashes)
                if len(s) < 3 or (n & (n - 1)) == 0:   # later ones are bigger
                    s.append(text if len(text) < 1500 else text[:1500] + "...")
                    del s[:-3]


CURRENT = None            # the Stats of this run
KNOWN = {}                # (property, key) -> text of the listed findings
PROPERTY = None


def known_finding(key, observed):
    """True if this failure is a listed finding; it is then reported, not
    raised."""
    if (PROPERTY, key) in KNOWN:
        CURRENT.known[key] = CURRENT.known.get(key, 0) + 1
        return True
    return False


def load_known(path):
    """Lines: finding: property=<id> key=<key> <text> (fixed: lines suppress
    nothing)."""
    if not os.path.exists(path):
        return
    with open(path, encoding="utf-8") as f:
        for line in f:
            line = line.strip()
            if line.startswith("finding:"):
                rest = line[len("finding:"):].strip()
                prop, key, text = rest.split(" ", 2)
                KNOWN[(prop.split("=", 1)[1], key.split("=", 1)[1])] = text


def _on_timer(signum, frame):
    raise Hang("no end after %g s of CPU" % CPU_LIMIT)


@contextmanager
def quiet():
    """Keep what the code under test prints away from the output."""
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        yield sys.stdout
    finally:
        sys.stdout = out


def random_state():
    """Of the generator all the calculations share."""
    import numpy
    name, keys, at, cached, value = numpy.random.get_state()
    return name, keys.tobytes(), at, cached, value


def run_case(facet, case):
    """Run one case; Violation, Hang, Discard or an error of the check."""
    signal.signal(signal.SIGPROF, _on_timer)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return facet.check(json.loads(json.dumps(case)))
    except (Violation, Discard, AssertionError):
        raise
    except Exception as e:                # noqa: BLE001
        # nothing the code under test returns when it is right does this
        raise Violation("a result the check cannot use: %s: %s\n%s" % (
            type(e).__name__, e, traceback.format_exc(limit=-4))) from None
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def search(facet, seed, examples, stats):
    """Generate cases; return (case, message) of a minimal failure or None."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    best = []
    started = []

    def note_failure(case, message):
        size = len(json.dumps(case))
        if not best or size <= best[0][0]:
            best[:] = [(size, case, message)]

    @hypothesis.seed(seed)
    @settings(max_examples=examples, database=None, deadline=None,
              derandomize=False, report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck),
              phases=[Phase.generate, Phase.shrink],
              verbosity=hypothesis.Verbosity.quiet)
    @given(facet.strategy())
    def test(case):
        if started and time.time() - started[0] > SHRINK_WALL:
            raise StopShrinking()
        try:
            classes = run_case(facet, case)
        except Discard:
            stats.discarded += 1
            return
        except Violation as e:
            if not started:
                started.append(time.time())
            note_failure(case, str(e))
            raise
        except Hang as e:
            note_failure(case, str(e))
            best[:] = [(0, case, str(e))]
            raise
        if not started:
            stats.note(facet.name, case, classes)

    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            test()
    except (Violation, Hang, StopShrinking):
        pass
    except Exception:
        if not best:
            raise
        # e.g. Hypothesis' report of a flaky failure: the case did fail
    if best:
        return best[0][1], best[0][2]
    return None
