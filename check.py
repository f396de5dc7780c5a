#!/usr/bin/env python3
"""Decides one property: check.py PROPERTY [--tier quick|thorough] [--cases N]
   or replays a violation: check.py replay FILE
   or builds everything beforehand: check.py setup"""
import argparse
import hashlib
import json
import os
import shutil
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from driver import stages  # noqa: E402
from driver.base import EVIDENCE, REPLAYS, CheckError, Violation, VERIF, say, scratch  # noqa: E402

# Everything has to be over well within the 900 s a check is given.
LIMIT = {"quick": 780, "thorough": 850}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("file", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--cases", type=int, help="generate this many cases instead")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    if a.prop == "replay":
        return stages.replay(a.file)
    if a.prop == "setup":
        return stages.setup()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    d = scratch("run-" + a.prop)
    ctx = stages.Context(a.prop, a.tier, seed, t0 + LIMIT[a.tier], d, a.cases)
    os.makedirs(EVIDENCE, exist_ok=True)
    ef = os.path.join(EVIDENCE, a.prop + ".json")
    if os.path.exists(ef):
        os.remove(ef)
    violation = None
    try:
        try:
            stages.run(ctx)
        except Violation as v:
            violation = v.data
        except CheckError as e:
            say("ERROR %s: %s" % (a.prop, e))
            return 2
        ev = {
            "property": a.prop,
            "tier": a.tier,
            "seed": seed,
            "level": "exploration",
            "coverage": ctx.coverage(),
            "assumptions": stages.ASSUMPTIONS,
            "wall_s": round(time.time() - t0, 2),
            "violations": 1 if violation else 0,
        }
        with open(ef + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.rename(ef + ".tmp", ef)
        if violation:
            os.makedirs(REPLAYS, exist_ok=True)
            violation["property"] = a.prop
            text = json.dumps(violation, indent=1)
            p = os.path.join(REPLAYS, "%s-%s.json" % (a.prop, hashlib.sha256(text.encode()).hexdigest()[:12]))
            violation["replay_with"] = "python3 %s replay %s" % (os.path.join(VERIF, "check.py"), p)
            with open(p, "w") as f:
                json.dump(violation, f, indent=1)
                f.write("\n")
            say(violation["message"])
            for x in violation.get("log", [])[:40]:
                say("   " + x)
            say("VIOLATION property=%s replay=%s" % (a.prop, p))
            return 1
        c = ev["coverage"]
        say("%s held on %d cases (%d distinct and non-trivial), %.1f s" % (a.prop, c["evaluations"], c["distinct_nontrivial"], time.time() - t0))
        return 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception:
        traceback.print_exc()
        sys.stdout.flush()
        sys.exit(2)
