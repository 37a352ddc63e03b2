"""Run the driver script of a replay file (or stdin) and show the log."""
import json, subprocess, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core
sc = json.load(open(sys.argv[1]))["replay"]["script"] if len(sys.argv) > 1 else [l.rstrip("\n") for l in sys.stdin]
p = subprocess.run([core.drv(os.environ.get("VARIANT", "plain"))], input="case 1\n%s\nend\n" % "\n".join(sc), text=True, capture_output=True)
print("\n".join(sc)); print("----"); print(p.stdout); print(p.stderr[-3000:])
