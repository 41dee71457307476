"""Command line driver: main.py PROPERTY [--tier quick|thorough] [--replay FILE]"""

import argparse
import glob
import importlib
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QUICKLY_REPO", "/repo")

sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
sys.path.insert(1, ROOT)

# generous caps; the spaces are sized to finish well before
BUDGET = {"quick": 500, "thorough": 800}


def violation(prop, n, family, case, key, detail):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "{}-{}.json".format(prop, n))
    with open(path, "w") as f:
        json.dump({"property": prop, "family": family, "case": case,
                   "key": key, "detail": detail}, f, indent=1, default=repr)
    print("VIOLATION property={} replay={}".format(prop, path))
    print("  family={} case={}".format(family, json.dumps(case, default=repr)[:600]))
    print("  {}".format(key[:600]))
    if detail:
        print("  " + detail[:1500].replace("\n", "\n  "))


def known_findings(prop):
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        data = json.load(f)
    return [e for e in data["known"] if e["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick",
                    choices=("quick", "thorough"))
    ap.add_argument("--replay")
    ap.add_argument("--family", action="append")
    args = ap.parse_args()
    prop = args.property
    t0 = time.time()

    try:
        import quickly
        assert os.path.realpath(quickly.__file__).startswith(os.path.realpath(REPO) + os.sep), quickly.__file__
        from mc import core
        module = importlib.import_module("mc.props." + prop.lower())
        families = module.families()
    except Exception:
        import traceback
        tb = traceback.format_exc()
        violation(prop, 0, "import", None, "the code under test can't be imported or set up", tb)
        return 1

    if args.family:
        families = [f for f in families if f.name in args.family]

    if args.replay:
        import signal
        signal.signal(signal.SIGALRM, core._alarm)
        with open(args.replay) as f:
            data = json.load(f)
        rec = core.Recorder()
        for f in families:
            if f.name == data["family"]:
                core.run_case(f, data["case"], rec)
        for family, case, key, detail in rec.fails:
            print("REPRODUCED", key, detail)
        return 1 if rec.fails else 0

    for p in glob.glob(os.path.join(ROOT, "replays", prop + "-*.json")):
        os.remove(p)

    rec, done = core.explore(families, args.tier, t0 + BUDGET[args.tier])

    # known findings are identified by family + exact key
    known = {(e["family"], e["key"]): e for e in known_findings(prop)}
    seen_known = set()
    new = []
    for family, case, key, detail in rec.fails:
        if (family, key) in known:
            seen_known.add((family, key))
        else:
            new.append((family, case, key, detail))
    new.sort(key=lambda v: (len(json.dumps(v[1], default=repr)), str(v[1])))

    complete = all(c for n, c, s in done.values())
    samples = [{"family": a, "case": b} for a, b in sorted(rec.samples, key=repr)[:12]]
    evidence = {
        "property": prop,
        "tier": args.tier,
        "seed": int(os.environ.get("VERIF_SEED") or 0),
        "level": "model_checking",
        "coverage": {
            # stateless explorations (one input, one result) have no states but
            # distinct results
            "states": len(rec.states) or len(rec.outcomes),
            "transitions": rec.transitions,
            "traces_validated_against_impl": rec.traces,
            "cases": rec.cases,
            "distinct_outcomes": len(rec.outcomes),
            "exhaustive": complete,
            "families": {name: {"cases": n, "complete": c, "seconds": round(s, 1)}
                         for name, (n, c, s) in done.items()},
            "counts": dict(rec.counts),
            "bounds": module.BOUNDS[args.tier],
            "samples": samples,
        },
        "assumptions": module.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, default=repr)

    print("{} tier={} states={} transitions={} traces={} cases={} outcomes={} complete={} wall={:.1f}s".format(
        prop, args.tier, len(rec.states), rec.transitions, rec.traces, rec.cases,
        len(rec.outcomes), complete, time.time() - t0))
    for name, (n, c, s) in done.items():
        print("  family {}: {} cases, complete={}, {:.1f}s".format(name, n, c, s))
    for fk, e in known.items():
        if fk in seen_known:
            print("KNOWN-FINDING: property={} {}".format(prop, e["what"]))
    if new:
        for i, v in enumerate(new[:5]):
            violation(prop, i, *v)
        if len(new) > 5:
            print("  ... and {} more".format(len(new) - 5))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
