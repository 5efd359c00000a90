#!/usr/bin/env python3
"""Replay what a check recorded: python3 /verif/replay.py evidence/replay/C01.json

Rebuilds the recorded contract natively against /repo's current tree (real bitvec, real std) and
runs it on the recorded values.  Exit 1 when a recorded violation shows, 0 when none does."""
import sys, os, json, shutil, subprocess, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import check, gen


def main():
    rec = json.load(open(sys.argv[1]))
    work = tempfile.mkdtemp(prefix="deku-replay-")
    hit = 0
    try:
        bins = {}
        for tier in ("quick", "thorough"):
            for b in gen.PROPS[rec["property"]]["builds"](tier):
                todo = [v for v in rec["violations"] if v["build"] == b["name"] and "done" not in v
                        and any((" %s => {" % v["contract"].split("::")[1]) in t or
                                ("\n%s => {" % v["contract"].split("::")[1]) in t for t in b["tables"].values())]
                if not todo:
                    continue
                B = check.Build(b["name"], b["features"], b["libs"], b["tables"], work + "/" + tier)
                os.makedirs(work + "/" + tier, exist_ok=True)
                B.write()
                B.native()
                for v in todo:
                    v["done"] = True
                    print("contract", v["contract"], "(%s)" % v["build"])
                    for o in v.get("obligations_failed", [])[:5]:
                        print("  verifier:", o)
                    if v.get("values") is None:
                        print("  no values recorded")
                        continue
                    # a contract's module can differ between tiers: look it up by name
                    names = subprocess.run([B.bin, "--list"], capture_output=True, text=True).stdout.split()
                    n = [x for x in names if x.split("::")[1] == v["contract"].split("::")[1]]
                    p = subprocess.run([B.bin, n[0]] + v["values"], capture_output=True, text=True, timeout=120)
                    print("  replay:", (p.stdout + p.stderr).strip() or "rc %d" % p.returncode)
                    hit += p.returncode not in (0, 3, 4)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(1 if hit else 0)


if __name__ == "__main__":
    main()
