#!/usr/bin/env python3
"""trybug.py ID... [--nocheck] [--notest]: confirm a planted bug (builds, stable tests pass, demo) and run its check."""
import sys, os, json, subprocess, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
os.environ["CARGO_NET_OFFLINE"] = "true"
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(c, cwd=R, t=1200):
    p = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
    return p.returncode, p.stdout + p.stderr


def clean():
    sh("git checkout -- .")


for i in ids:
    d = "%s/seeded/%s" % (V, i)
    m = json.load(open(d + "/meta.json"))
    out = [i, m["property"]]
    assert sh("git status --porcelain")[1].strip() == "", "dirty /repo"
    if "--nodemo" not in sys.argv:
        rc, o = sh("bash %s/demo.sh" % d)
        out.append("demo-clean=%d" % rc)
        if rc:
            print(o[-1500:])
    rc, o = sh("git apply %s/patch.diff" % d)
    if rc:
        print(i, "PATCH DOES NOT APPLY", o)
        continue
    try:
        if "--notest" not in sys.argv:
            rc, o = sh("bash /opt/vp/build.sh")
            out.append("build=%d" % rc)
            if rc:
                print(o[-3000:])
            rc, o = sh("bash /opt/vp/test.sh /tmp/tb.json")
            miss = base - set(json.load(open("/tmp/tb.json"))["passed"])
            out.append("tests-broken=%d %s" % (len(miss), sorted(miss)[:3]))
        if "--nodemo" not in sys.argv:
            rc, o = sh("bash %s/demo.sh" % d)
            out.append("demo-bug=%d" % rc)
            if rc == 0 or "--show" in sys.argv:
                print(o[-1500:])
        if "--nocheck" not in sys.argv:
            t = time.time()
            rc, o = sh("python3 check.py %s" % m["property"], cwd=V, t=1500)
            out.append("check=%d (%ds)" % (rc, time.time() - t))
            out += [l for l in o.splitlines() if l.startswith("VIOLATION") or "error" in l.lower()][:3]
            if rc != 1:
                out.append(o[-600:])
    finally:
        clean()
    print("\n   ".join(out), flush=True)
