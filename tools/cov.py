#!/usr/bin/env python3
"""Summary of an evidence file: cases, non-trivial cases, labels per law."""
import json, sys
for pid in sys.argv[1:]:
    e = json.load(open("/verif/evidence/%s.json" % pid))
    c = e["coverage"]
    print(pid, e["tier"], "wall", e.get("wall_s"), "build", c.get("build_s"))
    for k, v in c["per_law"].items():
        print("  %-28s %8d nontrivial %6.1f%% discarded %d cut %s" % (k, v["evaluations"], 100.0 * v["nontrivial"] / max(1, v["evaluations"]), v["discarded"], v["cut_by_time_cap"]),
              c["classification"].get(k.split("/")[-1], ""))
