#!/usr/bin/env python3
"""Development aid (no check uses it): for each planted bug, confirm that it builds, passes the repository's tests and is
shown by its demonstration, then run the property's check (and any others named) against it.
usage: seedrun.py [--nobuild] [--checks C01,C02] id..."""
import json, os, subprocess, sys, shutil
V = "/verif"; a = sys.argv[1:]; nobuild = "--nobuild" in a; a = [x for x in a if x != "--nobuild"]
extra = []
if "--checks" in a: i = a.index("--checks"); extra = a[i + 1].split(","); del a[i:i + 2]
ids = a or sorted(os.listdir(V + "/seeded"))
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo is not clean"
for s in ids:
    d = f"{V}/seeded/{s}"; meta = json.load(open(d + "/meta.json")); out = [s]
    r = sh(f"git -C /repo apply {d}/patch.diff"); assert r.returncode == 0, r.stdout
    try:
        if not nobuild:
            b = sh("bash /opt/vp/build.sh"); out.append("build=%d" % b.returncode)
            t = sh("bash /opt/vp/test.sh /tmp/seedrun.json"); j = json.load(open("/tmp/seedrun.json"))
            f = j.get("failed", j.get("fail", [])); out.append("failed=%s" % (len(f) if f is not None else "?"))
            dm = sh(d + "/demo.sh", cwd="/repo"); out.append("demo=%d" % dm.returncode)
            if dm.returncode in (0, 2): out.append("DEMO? " + dm.stdout[-300:])
        for c in [meta["property"]] + extra:
            r = sh(f"VERIF_SEED=1 bin/check {c} quick", cwd=V); v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            out.append("%s:rc=%d%s" % (c, r.returncode, "" if v else " NOT-CAUGHT")); out.append((r.stdout.splitlines() or [""])[-2 if v and len(r.stdout.splitlines()) > 1 else -1][:160])
    finally:
        sh("git -C /repo checkout -- ."); sh("bash /opt/vp/build.sh") if not nobuild else None
    if not nobuild:
        dm = sh(d + "/demo.sh", cwd="/repo"); out.append("clean-demo=%d" % dm.returncode)
        if dm.returncode: out.append(dm.stdout[-300:])
    print(" | ".join(out), flush=True)
shutil.rmtree("/tmp/seedrun.json", ignore_errors=True)
