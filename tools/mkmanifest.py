#!/usr/bin/env python3
"""MANIFEST.json is generated from properties.jsonl and the checks' own headers."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
NA = {
    "P30": ("not claimed: the fault history itself is easily specified (an operation under a failing allocator either answers as without the fault or says that it failed, and "
            "leaves the automata it did not consume as they were) and the driver can fail any allocation, but on this tree many operations end in assertions or "
            "null dereferences at single allocation points (listed in DESIGN.md); until those are repaired a check would report mostly known findings"),
}
for l in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(l)["id"]
    f = os.path.join(V, "checks", pid.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": pid, "reason": NA.get(pid, "no check built yet")})
        continue
    c = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("TECHNIQUE", "LEVEL", "NOTE"):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append({"property": pid, "quick_cmd": "python3 check.py %s quick" % pid,
                   "thorough_cmd": "python3 check.py %s thorough" % pid,
                   "technique": c["TECHNIQUE"], "level": c.get("LEVEL", "model_checking"), "level_note": c["NOTE"]})
m = {"version": 1, "setup_cmd": "python3 lib/build.py plain", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
