#!/usr/bin/env python3
"""Generate properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, CHECK, NA = [], {}, {}


def prop(id, title, statement, over, text, why, files, mech, tech=None,
         note=None, na=None, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
    if na:
        NA[id] = na
    else:
        CHECK[id] = (tech, note)


exec(open(os.path.join(V, "tools", "table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": i, "quick_cmd": "python3 check.py " + i,
                 "thorough_cmd": "python3 check.py " + i,
                 "technique": t, "level": "other", "level_note": n}
                for i, (t, n) in CHECK.items()],
     "not_applicable": [{"property": i, "reason": r} for i, r in NA.items()],
     "notes": "Every check type-checks /repo's working tree with a rustc "
              "driver (driver/), dumps optimised-free MIR, types, constants "
              "and impls, and decides its property on that dump.  Nothing of "
              "rav1e is executed.  No hooks are needed in /repo."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(CHECK), "claimed,", len(NA), "n/a")
