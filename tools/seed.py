#!/usr/bin/env python3
"""seed.py ID [checks...]: applies seeded/ID/patch.diff to /repo, runs the stable tests, the demo and the
property's check, undoes the patch, runs the demo again.  Options: -n skip the tests, -d skip the demos."""
import json, os, subprocess, sys
R = "/verif"
a = [x for x in sys.argv[1:] if not x.startswith("-")]
opt = "".join(x for x in sys.argv[1:] if x.startswith("-"))
i = a[0]
d = f"{R}/seeded/{i}"
meta = json.load(open(d + "/meta.json"))
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo dirty"
r = sh(f"git -C /repo apply {d}/patch.diff")
assert r.returncode == 0, r.stdout
try:
    if "n" not in opt:
        sh("bash /opt/vp/test.sh /tmp/seedout.json")
        base = json.load(open("/opt/vp/BASELINE.json"))
        o = json.load(open("/tmp/seedout.json"))
        bp = set(base["stable"])
        op = set(o.get("passed") or [])
        miss = bp - op
        print("tests:", len(op), "passed; missing from baseline:", sorted(miss)[:5])
    if "d" not in opt:
        r = sh(f"bash {d}/demo.sh", cwd="/repo")
        print("demo with patch rc", r.returncode, r.stdout.strip().splitlines()[-3:])
    for c in (a[1:] or [meta["property"]]):
        r = sh(f"python3 {R}/bin/check.py {c}", cwd=R)
        print("check", c, "rc", r.returncode, "|", r.stdout.strip()[-900:])
finally:
    sh("git -C /repo checkout -- .")
if "d" not in opt:
    r = sh(f"bash {d}/demo.sh", cwd="/repo")
    print("demo without patch rc", r.returncode, r.stdout.strip().splitlines()[-2:])
