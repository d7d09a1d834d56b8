#!/usr/bin/env python3
"""refac.py FILE [ids]: FILE defines REFACS = [dict(id, props, edits=[(file, old, new)])]: edits that keep the behaviour.
Builds, runs the tests and the checks; every check has to stay quiet."""
import json, subprocess, sys, importlib.util, time
spec = importlib.util.spec_from_file_location("s", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only = sys.argv[2:]
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
assert sh("git -C /repo status --short").stdout == "", "dirty"
base = json.load(open('/opt/vp/BASELINE.json'))['stable']
for s in m.REFACS:
    if only and s["id"] not in only: continue
    ok = True
    for f, a, b in s["edits"]:
        p = "/repo/" + f; t = open(p).read()
        if t.count(a) != 1: print(s["id"], "EDIT matches", t.count(a), a[:60]); ok = False; break
        open(p, "w").write(t.replace(a, b))
    if ok:
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: print(s["id"], "BUILD FAILS", b.stdout[-1500:]); ok = False
    if ok:
        sh("bash /opt/vp/test.sh /tmp/o.json")
        miss = [x for x in base if x not in json.load(open("/tmp/o.json"))["passed"]]
        res = []
        for p in s["props"]:
            t0 = time.time()
            c = sh("python3 tools/run.py " + p, cwd="/verif")
            res.append("%s:%s(%ds)" % (p, "quiet" if c.returncode == 0 else "ALARM rc=%d" % c.returncode, time.time() - t0))
            open("/tmp/refac.%s.%s.log" % (s["id"], p), "w").write(c.stdout)
        print(s["id"], "tests-missing=%d" % len(miss), res, flush=True)
    sh("git -C /repo checkout -- .")
sh("bash /opt/vp/build.sh")
