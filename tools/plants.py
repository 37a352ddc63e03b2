#!/usr/bin/env python3
"""plants.py ID [check...]: confirm a planted change in a copy of /repo (mounted over /repo in a
namespace of its own for the build and the tests), then run checks against the copy."""
import sys, os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(id_, checks):
    d = os.path.join(V, "seeded", id_)
    w = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    r = w + "/repo"
    try:
        subprocess.run(["cp", "-a", "/repo", r], check=True)

        def inside(cmd):
            p = subprocess.run(["unshare", "-Urm", "sh", "-c", "mount --bind %s /repo && cd /repo && %s" % (r, cmd)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            return p.returncode, p.stdout.decode("latin1")[-300:]
        print(id_, "demo, unchanged:", *inside("bash %s/demo.sh" % d)[:1])
        subprocess.run("sleep 1.2; git apply %s/patch.diff" % d, shell=True, cwd=r, check=True)
        rc, o = inside("bash /opt/vp/build.sh")
        if rc:
            print(id_, "DOES NOT BUILD", o)
            return
        inside("bash /opt/vp/test.sh %s/t.json" % w)
        b = json.load(open("/opt/vp/BASELINE.json"))
        t = json.load(open(w + "/t.json"))
        base = set(b.get("stable") or b["passed"])
        print(id_, "tests lost:", len(base - set(t["passed"])), sorted(base - set(t["passed"]))[:3])
        print(id_, "demo, changed:", *inside("bash %s/demo.sh" % d))
        prop = json.load(open(d + "/meta.json"))["property"]
        for c in checks or [prop]:
            p = subprocess.run(["python3", V + "/check.py", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_REPO=r), timeout=900)
            o = [l for l in p.stdout.decode("latin1").split("\n") if l.startswith("  ")]
            print(id_, c, "->", p.returncode, (o or [""])[0][:160])
    finally:
        shutil.rmtree(w)


main(sys.argv[1], sys.argv[2:])
