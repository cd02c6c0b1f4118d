#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property on /repo's current tree."""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "engine"))
sys.setrecursionlimit(20000)

import build                                    # noqa: E402
from registry import PROPS, Ctx                 # noqa: E402


def known(prop):
    out = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                assert rest.startswith("key=")
                key, _, what = rest[4:].partition(" | ")
                out[key.strip()] = what.strip()
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    ctx = Ctx(tier)
    try:
        res = PROPS[prop](ctx)
    except build.BuildError as ex:
        print("ERROR the analysis could not be built: %s" % ex)
        return 2
    kn = known(prop)
    viol, seen = [], set()
    found = set()
    for key, msg in res.violations:
        if (key, msg) in seen:
            continue
        seen.add((key, msg))
        if key in kn:
            found.add(key)
            continue
        viol.append((key, msg))
    for k in sorted(found):
        print("KNOWN-FINDING: property=%s %s" % (prop, kn[k]))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    replay = os.path.join(VERIF, "evidence", "%s.violations.txt" % prop)
    with open(replay, "w") as f:
        for key, msg in viol:
            f.write("%s | %s\n" % (key, msg))
    cov = {"explanation": res.rule, "obligations": res.obligations, "discharged": max(0, res.obligations - len(viol)),
           "samples": res.samples[:12], "rule": res.rule}
    cov.update(res.counts)
    cov.update(ctx.analysed())
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": cov,
        "assumptions": res.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    with open(os.path.join(VERIF, "evidence", "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %s" % (prop, res.obligations, ", ".join("%s=%s" % kv for kv in res.counts.items() if not isinstance(kv[1], (list, dict)))))
    for key, msg in viol:
        print("  %s | %s" % (key, msg))
    if viol:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    print("OK property=%s" % prop)
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception:
        traceback.print_exc()
        sys.exit(2)
