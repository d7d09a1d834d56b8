#!/usr/bin/env python3
"""run.py PROPERTY: decides one property on /repo's working tree (see DESIGN.md)."""
import json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import prep, registry

VERIF = prep.VERIF


def findings():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)


class Fail(Exception):
    pass


def study(name, crate):
    out = os.path.join(prep.CACHE, "out", "%s.%d.json" % (name, os.getpid()))
    os.makedirs(os.path.dirname(out), exist_ok=True)
    eng = os.path.join(prep.CACHE, "engine/release/mxsa")
    e = prep.env()
    e["MXSA_WS"] = prep.WS
    r = subprocess.run([eng, os.path.join(prep.ARGS, crate), name, out], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=800)
    try:
        with open(out) as f:
            d = json.load(f)
    except (OSError, ValueError):
        sys.stderr.write(r.stdout[-4000:])
        raise Fail("the analysis %s produced no result" % name)
    finally:
        if os.path.exists(out):
            os.remove(out)
    return d


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ck = registry.CHECKS[pid]
    obs, cover, problems = [], {}, []
    try:
        prep.main()
        if "py" in ck:
            mod = __import__(ck["py"])
            obs, cover = mod.run(pid, ck)
        for name, props in ck.get("studies", [(ck["study"], ck["props"])] if "study" in ck else []):
            d = study(name, ck.get("crate", "vharness.lib"))
            mine = [o for o in d["obligations"] if o["prop"] in props]
            obs += mine
            for k in ("functions", "call_sites", "steps"):
                cover[k] = cover.get(k, 0) + d[k]
            for k, v in d["stats"].items():
                cover[k] = cover.get(k, 0) + v
            cover.setdefault("own_functions", []).extend(x for x in d["own_functions"] if x not in cover.get("own_functions", []))
            cover.setdefault("recursive", []).extend(d["recursive"])
            cover.setdefault("roots", []).extend(d["roots"])
            cover["unmodelled"] = cover.get("unmodelled", 0) + len(d["opaque"])
            for i in d["incomplete"]:
                problems.append("the analysis is not complete: " + i)
    except Fail as e:
        problems.append(str(e))
    cover["obligations"] = len(obs)
    cover["discharged"] = sum(1 for o in obs if o["ok"])
    for k, n in ck.get("floors", {}).items():
        if cover.get(k, 0) < n:
            problems.append("only %s %s were found, %d are expected: the analysis has lost its anchors" % (cover.get(k, 0), k, n))
    for k in ck.get("need", []):
        if not any(k in o["key"] for o in obs):
            problems.append("nothing was analysed for %r" % k)
    kf = {(f["property"], f["key"]): f for f in findings()["findings"]}
    bad = []
    for o in obs:
        if o["ok"]:
            continue
        f = kf.get((pid, o["key"]))
        if f:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, o["key"], f["what"]))
        else:
            bad.append(o)
    rdir = os.path.join(VERIF, "evidence")
    os.makedirs(rdir, exist_ok=True)
    samples = [{"obligation": o["key"], "at": o["loc"], "holds": o["ok"]} for o in (bad + [o for o in obs if o["ok"]])[:12]]
    ev = dict(property=pid, tier=tier, seed=seed, level=ck.get("level", "other"),
              coverage=dict(explanation=ck["rule"], samples=samples, **cover),
              assumptions=ck.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(bad))
    with open(os.path.join(rdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not bad and not problems:
        print("%s: %d obligations hold (%.1fs)" % (pid, len(obs), time.time() - t0))
        return 0
    rep = os.path.join(rdir, pid + ".violation.json")
    with open(rep, "w") as f:
        json.dump(dict(property=pid, rule=ck["rule"], violations=bad, problems=problems), f, indent=1)
    for o in bad[:20]:
        print("%s\n  at %s: %s" % (o["key"], o["loc"], o["msg"][:600]))
        for p in o["path"][-12:]:
            print("    " + p[:200])
    for p in problems[:20]:
        print(p)
    if bad or ck.get("closed", True):
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    return 1


if __name__ == "__main__":
    sys.exit(main())
