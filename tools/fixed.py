"""tools/fixed.py PID 'text': record /repo's HEAD as a fix."""
import json, subprocess, sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
k = json.load(open(p))
h = subprocess.check_output(["git", "-C", "/repo", "log", "-1" if len(sys.argv) < 4 else "-1", "--format=%h", sys.argv[3] if len(sys.argv) > 3 else "HEAD"], text=True).strip()
k["fixed"].append("fixed: property=%s %s %s" % (sys.argv[1], h, sys.argv[2]))
json.dump(k, open(p, "w"), indent=1)
