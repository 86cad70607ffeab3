#!/usr/bin/env python3
"""Adds what the instrumented runs of C23 observed to its evidence."""
import json, os, sys
ev, out, names, status = sys.argv[1], sys.argv[2], sys.argv[3:-1], int(sys.argv[-1])
d = json.load(open(ev))
runs = {}
total = 0
for n in names:
    try:
        e = json.load(open(f"{out}/{n}/C23.json"))
    except (OSError, ValueError):
        runs[n] = {"ended": "without evidence"}
        continue
    c = e["coverage"]
    total += c["evaluations"]
    runs[n] = {"evaluations": c["evaluations"], "distinct_nontrivial": c["distinct_nontrivial"],
               "calls": c["observed"].get("calls", 0), "bytes_delivered": c["observed"].get("bytes_delivered", 0),
               "wall_s": e["wall_s"], "violations": e["violations"]}
d["coverage"]["instrumented"] = runs
d["coverage"]["instrumented_evaluations"] = total
if status == 1:
    d["violations"] = max(1, d["violations"])
d["wall_s"] = round(d["wall_s"] + sum(r.get("wall_s", 0) for n, r in runs.items() if not n.startswith("miri")) + max([r.get("wall_s", 0) for n, r in runs.items() if n.startswith("miri")] or [0]), 2)
json.dump(d, open(ev, "w"), indent=1)
