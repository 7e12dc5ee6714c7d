#!/usr/bin/env python3
"""bug.py new ID PROP: takes the uncommitted diff of /repo as seeded/ID/patch.diff (and undoes it).
   bug.py test ID [CHECK...]: applies the patch in /repo, builds, runs the stable tests, the demo and the checks, undoes it."""
import json, os, shutil, subprocess, sys
V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
cmd, bid = sys.argv[1], sys.argv[2]
d = f"{V}/seeded/{bid}"
if cmd == "new":
    os.makedirs(d, exist_ok=True)
    diff = sh("git -C /repo diff").stdout
    assert diff, "no diff"
    open(d + "/patch.diff", "w").write(diff)
    sh("git -C /repo checkout -- .")
    shutil.copy(V + "/tools/demo.sh", d + "/demo.sh")
    if not os.path.exists(d + "/meta.json"):
        json.dump({"property": sys.argv[3], "needs": "TODO", "what_it_breaks": "TODO"}, open(d + "/meta.json", "w"), indent=1)
else:
    meta = json.load(open(d + "/meta.json"))
    base = "--base" in sys.argv
    checks = [c for c in sys.argv[3:] if not c.startswith("-")] or [meta["property"]]
    assert not sh("git -C /repo status --porcelain -uno").stdout, "dirty"
    if base:
        print("build(base)", sh("bash /opt/vp/build.sh").returncode)
        r = sh(f"bash {d}/demo.sh", cwd="/repo"); print("demo on base:", r.returncode, (r.stdout + r.stderr)[-600:])
    r = sh(f"git -C /repo apply {d}/patch.diff"); assert r.returncode == 0, r.stderr
    try:
        r = sh("bash /opt/vp/build.sh"); print("build", r.returncode, "" if r.returncode == 0 else r.stderr[-1500:])
        if r.returncode == 0:
            r = sh("bash /opt/vp/test.sh /tmp/bugtest.json"); print("tests:", r.stdout.strip().splitlines()[-1:])
            b = json.load(open("/opt/vp/BASELINE.json")); 
            r = sh(f"bash {d}/demo.sh", cwd="/repo"); print("demo:", r.returncode, (r.stdout + r.stderr)[-300:])
        for c in checks:
            r = sh(f"cd {V} && python3 check.py {c} quick"); print(c, "exit", r.returncode, r.stdout[:500])
    finally:
        print(sh("git -C /repo checkout -- .").stderr)
