#!/usr/bin/env python3
"""merge_evidence.py OUT SEED PART...: sums the evidence of several runs of one check."""
import json, sys
out, seed, parts = sys.argv[1], int(sys.argv[2]), [json.load(open(p)) for p in sys.argv[3:]]
r = parts[0]
c = r["coverage"]
for p in parts[1:]:
    for k, v in p["coverage"].items():
        if k in ("evaluations", "distinct_nontrivial", "planned", "discarded"):
            c[k] += v
        elif k == "cut_by_time_budget":
            c[k] = c[k] or v
        elif k == "samples":
            c[k] = (c[k] + v)[:60]
        elif isinstance(v, dict):
            for a, b in v.items():
                if isinstance(b, (int, float)) and not isinstance(b, bool):
                    c[k][a] = c[k].get(a, 0) + b
                elif isinstance(b, dict):
                    d = c[k].setdefault(a, {})
                    for x, y in b.items():
                        d[x] = d.get(x, 0) + y if isinstance(y, (int, float)) else y
    r["wall_s"] += p["wall_s"]
    r["violations"] = r.get("violations", 0) + p.get("violations", 0)
r["seed"] = seed
c["runs"] = len(parts)
c["note_distinct"] = "distinct cases are counted within each run"
json.dump(r, open(out, "w"), indent=1)
