#!/usr/bin/env python3
"""lanes.py [-n LANES] [-p C01,C02] FILE[:id,id]...: runs the checks on the REFACS (must stay quiet) and SEEDS (must be caught)
of the files, each in a copy of /repo and /verif under /tmp/lanes, several at once. -p overrides the properties checked.
Doesn't build or run tests or demos (refac.py and seed.py do)."""
import os, subprocess, sys, importlib.util, time, threading, queue, shutil
a = sys.argv[1:]
n, props, only, files = 7, None, None, []
while a:
    x = a.pop(0)
    if x == "-n": n = int(a.pop(0))
    elif x == "-p": props = a.pop(0).split(",")
    else: files.append(x)
jobs = queue.Queue()
for f in files:
    f, _, ids = f.partition(":")
    ids = ids.split(",") if ids else []
    sp = importlib.util.spec_from_file_location("s", f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    for kind, l in (("refac", getattr(m, "REFACS", [])), ("seed", getattr(m, "SEEDS", []))):
        for s in l:
            if ids and s["id"] not in ids: continue
            for p in props or s.get("check" if kind == "seed" else "props", None) or [s["prop"]]:
                jobs.put((kind, s, p))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def lane(i):
    d = "/tmp/lanes/%d" % i
    os.makedirs(d, exist_ok=True)
    sh("rm -rf %s/repo; mkdir -p %s/repo; git -C /repo archive HEAD | tar x -C %s/repo; rsync -a --delete --exclude .cache --exclude seeded --exclude .git /verif/ %s/verif/" % ((d,) * 4))
    os.makedirs(d + "/verif/.cache", exist_ok=True)
    if not os.path.exists(d + "/verif/.cache/engine"):
        sh("cp -a /verif/.cache/engine %s/verif/.cache/" % d)
    env = dict(os.environ, VF_REPO=d + "/repo")
    while True:
        try: kind, s, p = jobs.get_nowait()
        except queue.Empty: return
        old = {}
        ok = True
        for f, x, y in s["edits"]:
            q = d + "/repo/" + f; t = open(q).read(); old.setdefault(q, t)
            if t.count(x) != 1: print(s["id"], "EDIT matches", t.count(x), x[:60], flush=True); ok = False; break
            open(q, "w").write(t.replace(x, y))
        if ok:
            t0 = time.time()
            c = sh("python3 tools/run.py " + p, cwd=d + "/verif", env=env)
            open("/tmp/%s.%s.%s.log" % (kind, s["id"], p), "w").write(c.stdout)
            hit = c.returncode == 1 and "VIOLATION property=" + p in c.stdout
            built = "error: could not compile" in c.stdout
            r = "DOES NOT COMPILE" if built else ("caught" if hit else "MISSED rc=%d" % c.returncode) if kind == "seed" else "quiet" if c.returncode == 0 else "ALARM rc=%d" % c.returncode
            print("%-24s %s %s (%ds)" % (s["id"], p, r, time.time() - t0), flush=True)
        for q, t in old.items(): open(q, "w").write(t)
ts = [threading.Thread(target=lane, args=(i,)) for i in range(n)]
[t.start() for t in ts]; [t.join() for t in ts]
