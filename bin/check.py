#!/usr/bin/env python3
"""Decides one property:  check.py C01 [--tier quick|thorough] [--replay FILE]

Model-check the specification, generate scenarios from it, execute them on the real code, and ask TLC whether what
happened is a behaviour of the specification. Exit 0: yes. Exit 1 with a VIOLATION line: no. Exit 2: the machinery failed.
"""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import checks

EVID = os.path.join(VERIF, "evidence")


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    t0 = time.time()
    c = checks.CHECKS[prop](prop, tier)
    if replay:
        rec = json.load(open(replay))
        bad = c.replay(rec)
        for x in bad:
            print(json.dumps(x)[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, replay) if bad else "not reproduced")
        return 1 if bad else 0
    c.run()
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    for old in os.listdir(os.path.join(EVID, "replays")):
        if old.startswith(prop + "-"):
            os.remove(os.path.join(EVID, "replays", old))
    viol = []
    for n, (pipe, scenario, x) in enumerate(c.violations[:20]):
        path = os.path.join(EVID, "replays", "%s-%d.json" % (prop, n))
        json.dump({"property": prop, "pipe": pipe, "seed": SEED, "scenario": scenario, "rejected": x}, open(path, "w"), indent=1)
        viol.append(path)
    ev = {"property": prop, "tier": tier, "seed": int(SEED) if SEED.isdigit() else 0, "level": "model_checking",
          "coverage": c.coverage(), "assumptions": c.assumptions(), "wall_s": round(time.time() - t0, 1), "violations": len(c.violations)}
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    cov = ev["coverage"]
    print("%s %s: %d specification states, %d scenarios, %d events validated, %d rejected, %.0f s" % (
        prop, tier, cov["states"], cov["traces_validated_against_impl"], cov["events_validated"], len(c.violations), ev["wall_s"]))
    for what in c.known_lines():
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    for path, (pipe, scenario, x) in zip(viol, c.violations):
        print("  %s: rejected event %s" % (pipe, json.dumps(x.get("ev"))[:600]))
        print("  expected %s" % json.dumps(x.get("want"))[:600])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1 if viol else 0


if __name__ == "__main__":
    try:
        rc = main()
    except Broken as e:
        print("BROKEN: %s" % e, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
