#!/usr/bin/env python3
"""check.py <property>: decides one property.  See DESIGN.md."""
import json
import os
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import lib
import plans
import texts


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    ctx = lib.Ctx(pid, tier, seed)
    try:
        plan = plans.PLANS[pid](ctx)
        outs, errs = lib.run_jobs(plan["jobs"])
    except lib.ToolError as e:
        print("ERROR: %s" % e)
        sys.exit(2)
    level = plans.LEVELS.get(pid, "model_checking")
    viol = [o for o in outs if o.violation]
    cov = {
        "states": sum(o.states for o in outs),
        "transitions": sum(o.transitions for o in outs),
        "traces_validated_against_impl": sum(o.traces for o in outs),
        "trace_events": sum(o.events for o in outs),
        "transitions_replayed_in_impl": sum(o.replayed for o in outs),
        "samples": [s for o in outs for s in o.samples][:6] or ["none"],
        "jobs": [{"name": o.name, "states": o.states, "events": o.events, "replayed": o.replayed}
                 for o in outs],
        "notes": [n for o in outs for n in o.notes],
        "explanation": texts.T[pid][1],
    }
    if level in ("exploration", "fault_enumeration"):
        cov["evaluations"] = cov["trace_events"] + cov["transitions_replayed_in_impl"]
        cov["distinct_nontrivial"] = sum(o.extra.get("faults", 0) for o in outs) or cov["states"]
        cov["rule"] = plan.get("rule", texts.T[pid][1])
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": plan.get("assumptions", []), "wall_s": round(time.time() - t0, 1),
          "violations": len(viol)}
    with open(os.path.join(lib.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in outs:
        if k.known:
            print(k.known)
    if viol:
        for o in viol[:5]:
            print("%s: %s" % (o.name, o.violation[0]))
            print("VIOLATION property=%s replay=%s" % (pid, o.violation[1]))
        sys.exit(1)
    if errs:
        for e in errs:
            print("ERROR: %s" % e)
        sys.exit(2)
    print("OK property=%s tier=%s states=%d transitions=%d traces=%d events=%d replayed=%d wall=%.1fs"
          % (pid, tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"],
             cov["trace_events"], cov["transitions_replayed_in_impl"], ev["wall_s"]))


if __name__ == "__main__":
    main()
