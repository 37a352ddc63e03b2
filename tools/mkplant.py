#!/usr/bin/env python3
"""mkplant.py ID PROPERTY FILE OLD NEW NEEDS BREAKS: writes seeded/ID/{patch.diff,meta.json,demo.sh}
(OLD must occur exactly once in FILE, or give FILE:N to choose the Nth occurrence)"""
import sys, os, json, subprocess, shutil
id_, prop, file, old, new, needs, breaks = sys.argv[1:8]
nth = None
if ":" in file:
    file, nth = file.split(":"); nth = int(nth)
p = "/repo/" + file
s = open(p).read()
old = old.replace("\\n", "\n").replace("\\t", "\t"); new = new.replace("\\n", "\n").replace("\\t", "\t")
c = s.count(old)
if nth is None and c != 1:
    sys.exit("%d occurrences" % c)
i = -1
for _ in range(nth or 1):
    i = s.index(old, i + 1)
t = s[:i] + new + s[i + len(old):]
d = "/verif/seeded/" + id_
os.makedirs(d, exist_ok=True)
open(p, "w").write(t)
diff = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE).stdout
open(d + "/patch.diff", "ab" if os.environ.get("ALSO") else "wb").write(diff)
subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
json.dump({"property": prop.upper(), "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
if not os.path.exists(d + "/demo.sh"):
    shutil.copy("/verif/seeded/P03-label-skip/demo.sh", d)
