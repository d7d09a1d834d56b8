#!/usr/bin/env python3
"""seed.py FILE: FILE defines SEEDS = [dict(id, prop, edits=[(file, old, new)], rs=code | sh=script, needs, breaks)]
validates each in /repo (apply, build, tests, demo, check) and reverts."""
import json, os, subprocess, sys, importlib.util
spec = importlib.util.spec_from_file_location("s", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only = sys.argv[2:]
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
DEMO = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'demo.sh')).read()
assert sh("git -C /repo status --short").stdout == "", "dirty"
base = json.load(open('/opt/vp/BASELINE.json'))['stable']
for s in m.SEEDS:
    if only and s["id"] not in only: continue
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    ok = True
    for f, a, b in s["edits"]:
        p = "/repo/" + f; t = open(p).read()
        if t.count(a) != 1: print(s["id"], "EDIT matches", t.count(a), a[:60]); ok = False; break
        open(p, "w").write(t.replace(a, b))
    if not ok:
        sh("git -C /repo checkout -- ."); continue
    open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    if "sh" in s: open(d + "/demo.sh", "w").write(s["sh"])
    else:
        open(d + "/demo.sh", "w").write(DEMO); open(d + "/demo.rs", "w").write(s["rs"])
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    b = sh("bash /opt/vp/build.sh")
    if b.returncode: print(s["id"], "BUILD FAILS", b.stdout[-1500:]); sh("git -C /repo checkout -- ."); continue
    sh("bash /opt/vp/test.sh /tmp/o.json")
    miss = [x for x in base if x not in json.load(open("/tmp/o.json"))["passed"]]
    dm = sh("bash %s/demo.sh" % d, cwd="/repo")
    props = [] if os.environ.get("NOCHECK") else s.get("check", [s["prop"]])
    res = []
    for p in props:
        c = sh("python3 tools/run.py " + p, cwd="/verif")
        res.append("%s:%s" % (p, "CAUGHT" if c.returncode == 1 and "VIOLATION property=" + p in c.stdout else "missed rc=%d" % c.returncode))
        open("/tmp/seed.%s.%s.log" % (s["id"], p), "w").write(c.stdout)
    sh("git -C /repo checkout -- .")
    print(s["id"], "tests-missing=%d" % len(miss), miss[:3] if miss else "", "demo rc=%d" % dm.returncode, res, flush=True)
    if dm.returncode == 0: print("   demo:", dm.stdout[-300:])
sh("bash /opt/vp/build.sh")
for s in m.SEEDS:
    if only and s["id"] not in only: continue
    d = "/verif/seeded/" + s["id"]
    if os.path.exists(d + "/demo.sh"):
        dm = sh("bash %s/demo.sh" % d, cwd="/repo")
        if dm.returncode: print(s["id"], "DEMO FAILS ON CLEAN", dm.stdout[-800:])
