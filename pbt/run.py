"""run.py <property> [tier] | replay <file>

Exit 0: the property held on everything explored; 1 with a VIOLATION line: it
does not; 2: error of the check."""

import hashlib
import importlib
import json
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
# Hypothesis is in the tooling environment, which has the same Python; last on
# the path, so that the project's own numpy, scipy, lxml and shapely win
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

import core                                             # noqa: E402
import sut                                              # noqa: E402


def load(prop):
    core.PROPERTY = prop
    core.load_known(os.path.join(VERIF, "known_findings.txt"))
    sut.prepare()
    return importlib.import_module("checks.%s" % prop.lower())


def save_replay(prop, facet, case, message):
    folder = os.path.join(VERIF, "replays")
    os.makedirs(folder, exist_ok=True)
    text = json.dumps(case, sort_keys=True)
    name = "%s-%s-%s.json" % (prop, facet.replace(" ", "-"), hashlib.sha1(
        text.encode("utf-8", "surrogatepass")).hexdigest()[:8])
    path = os.path.join(folder, name)
    with open(path, "w") as f:
        json.dump({"property": prop, "facet": facet, "case": case,
                   "message": message}, f, indent=1, sort_keys=True)
    return path


def corpus(prop):
    """Saved cases (shrunk failures on planted changes), always run first."""
    path = os.path.join(VERIF, "corpus", prop + ".json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)


def explore(prop, module, tier, seed, share):
    """Returns the failure (facet, case, message) or None."""
    stats = core.CURRENT
    facets = {f.name: f for f in module.FACETS}
    if share == 0:
        for item in corpus(prop):
            facet = facets[item["facet"]]
            try:
                stats.note(facet.name, item["case"],
                           core.run_case(facet, item["case"]))
            except core.Discard:
                stats.discarded += 1
            except (core.Violation, core.Hang) as e:
                return facet.name, item["case"], str(e)
    for k, facet in enumerate(module.FACETS):
        n = facet.quick if tier == "quick" else facet.thorough
        s = (seed * 1000003 + share * 7919 + k * 101) & 0x7fffffff
        found = core.search(facet, s, n, stats)
        if found:
            return (facet.name,) + found
    return None


LARGE = (" The cases of the facets named large have many times as many rows, sources, "
         "events or steps; their number is drawn up to a multiple, which is drawn first.")


def evidence(prop, module, tier, seed, stats, started, violations):
    samples = []
    for name in sorted(stats.samples):
        samples.extend(stats.samples[name][:2])
    data = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": stats.evaluations,
            "distinct_nontrivial": len(stats.hashes),
            "rule": " ".join(module.RULE.split()) + (
                LARGE if any(f.name.startswith("large") for f in module.FACETS) else ""),
            "samples": samples[:8],
            "undecided_knife_edge_cases": stats.discarded,
            "facets": stats.per_facet,
            "known_findings_observed": stats.known,
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - started, 2),
        "violations": violations,
    }
    folder = os.path.join(VERIF, "evidence")
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, prop + ".json"), "w") as f:
        json.dump(data, f, indent=1, sort_keys=True)
        f.write("\n")


def merge(stats, part):
    stats.evaluations += part["evaluations"]
    stats.discarded += part["discarded"]
    stats.hashes |= set(part["hashes"])
    for k, v in part["known"].items():
        stats.known[k] = stats.known.get(k, 0) + v
    for k, v in part["samples"].items():
        stats.samples.setdefault(k, []).extend(v)
    for name, f in part["per_facet"].items():
        g = stats.per_facet.setdefault(
            name, {"evaluations": 0, "nontrivial": 0, "classes": {}})
        g["evaluations"] += f["evaluations"]
        g["nontrivial"] += f["nontrivial"]
        for c, n in f["classes"].items():
            g["classes"][c] = g["classes"].get(c, 0) + n


def worker(prop, tier, seed, share, out):
    module = load(prop)
    core.CURRENT = stats = core.Stats()
    found = explore(prop, module, tier, seed, share)
    with open(out, "w") as f:
        json.dump({"evaluations": stats.evaluations,
                   "discarded": stats.discarded,
                   "hashes": sorted(stats.hashes), "known": stats.known,
                   "samples": stats.samples, "per_facet": stats.per_facet,
                   "found": found}, f)
    return 0


def finish(prop, module, tier, seed, stats, started, found):
    evidence(prop, module, tier, seed, stats, started, 1 if found else 0)
    for (p, key), text in sorted(core.KNOWN.items()):
        if p == prop and key in stats.known:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if found:
        path = save_replay(prop, *found)
        print("%s: %s" % (found[0], found[2]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("%s: held on %d cases, %d distinct and non-trivial (%d undecided), "
          "%.1f s" % (prop, stats.evaluations, len(stats.hashes),
                      stats.discarded, time.time() - started))
    return 0


def main(argv):
    started = time.time()
    if argv[0] == "replay":
        with open(argv[1]) as f:
            item = json.load(f)
        prop = item["property"]
        module = load(prop)
        core.CURRENT = core.Stats()
        facet = {f.name: f for f in module.FACETS}[item["facet"]]
        try:
            core.run_case(facet, item["case"])
        except (core.Violation, core.Hang) as e:
            print(e)
            print("VIOLATION property=%s replay=%s" % (prop, argv[1]))
            return 1
        print("%s: the case passes" % prop)
        return 0

    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if len(argv) > 2:
        return worker(prop, tier, seed, int(argv[2]), argv[3])
    core.CURRENT = stats = core.Stats()
    if tier == "quick":
        module = load(prop)
        found = explore(prop, module, tier, seed, 0)
        return finish(prop, module, tier, seed, stats, started, found)

    module = load(prop)
    shares = int(os.environ.get("VERIF_WORKERS", "8"))
    folder = sut.scratch()
    running = []
    for k in range(shares):
        out = os.path.join(folder, "%d.json" % k)
        running.append((out, subprocess.Popen(
            [sys.executable, "-B", os.path.abspath(__file__), prop, tier,
             str(k), out])))
    found = None
    failed = False
    for out, process in running:
        if process.wait() != 0:
            failed = True
            continue
        with open(out) as f:
            part = json.load(f)
        merge(stats, part)
        found = found or part["found"]
    if failed and not found:
        print("a worker failed", file=sys.stderr)
        return 2
    return finish(prop, module, tier, seed, stats, started, found)


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:                   # noqa: BLE001
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
