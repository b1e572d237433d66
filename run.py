#!/usr/bin/env python3
"""run.py ID [quick|thorough]   checks a property on /repo's working tree
run.py setup             prepares (build cache)
run.py replay FILE           repeats what a VIOLATION line points to"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from vm import check, known, orch, props, typesgen  # noqa: E402


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        return setup()
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = check.Check(prop, tier, int(os.environ.get("VERIF_SEED", "1")))
    try:
        known.run(c)
        props.CHECKS[prop](c)
    except orch.Infra as e:
        print("check could not run: %s" % e)
        return 2
    return c.finish()


def setup():
    """Warms the build cache and shows that the specification parses."""
    w = orch.Work()
    try:
        bad, cnt = orch.conform(w, "path", "TracePath", "C02", [{"sc": "setup", "items": [["get", "/a"]]}], chunks=1)
        print("ready", cnt)
    finally:
        w.close()
    return 0


def replay(path):
    r = json.load(open(path))
    o = r["origin"]
    c = check.Check(r["property"], r["tier"], r["seed"])
    g = typesgen.Gen(c.rng("types", *o["key"]), **o["gen"]) if "gen" in o else known.types() if o.get("known") else None
    w = orch.Work(g, race=o.get("race", False))
    try:
        env = {"VH_TABLE": w.run("builder", [{"sc": "table", "table": True}], "table")} if o.get("mode") == "builder" else None
        bad, cnt = orch.conform(w, o.get("mode", "doc"), o.get("module", "TraceDoc"), r["property"], [r["scenario"]], chunks=1, env=env)
    finally:
        w.close()
    print(json.dumps(r["scenario"], indent=1))
    for b in bad:
        for d in b["diffs"]:
            print("%s step %s %s: %s %s\n  expected %s\n  observed %s" % (b["v"], b["n"], b["ev"], d["aspect"], d["at"], d["expected"], d["observed"]))
    print("mismatches: %d" % len(bad))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
