#!/usr/bin/env python3
"""Builds the analysis view of /repo's working tree.

* mirrors the parts of /repo that the build reads into .cache/ws (content-compared, so that an
  unchanged file keeps its old time and cargo its freshness), without crates/mitex-wasm, whose git
  dependency cannot be resolved offline;
* adds the harness crate (roots of the analysis);
* type-checks everything with the nightly compiler so that MIR of every function is encoded in
  the metadata, and records the rustc command line of the crates that the engine re-enters.
"""
import filecmp, hashlib, os, shutil, subprocess, sys, fcntl, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
CACHE = os.environ.get("VF_CACHE", os.path.join(VERIF, ".cache"))
WS = os.path.join(CACHE, "ws")
TARGET = os.path.join(CACHE, "target")
ARGS = os.path.join(CACHE, "args")
NIGHTLY = "nightly"


def env():
    e = dict(os.environ)
    e["PATH"] = "/opt/typst/bin:/root/.cargo/bin:" + e.get("PATH", "")
    e.setdefault("HOME", "/root")
    e["RUSTUP_TOOLCHAIN"] = NIGHTLY
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    return e


def sysroot():
    return subprocess.check_output(["rustc", "--print", "sysroot"], env=env(), text=True).strip()


def wanted(rel):
    top = rel.split("/")
    if top[0] in ("target", ".git", ".github", "local", "docs", "scripts"):
        return False
    if top[0] == "packages" and len(top) > 1 and top[1] != "mitex":
        return False
    if rel.startswith("crates/mitex-wasm"):
        return False
    if top[0] == "fuzz":
        return False
    if top[0] == "fixtures":
        return False
    return True


def put(dst, data):
    try:
        with open(dst, "rb") as f:
            if f.read() == data:
                return False
    except OSError:
        pass
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst, "wb") as f:
        f.write(data)
    return True


def sync():
    seen = set()
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        rel = "" if rel == "." else rel + "/"
        dirs[:] = [d for d in dirs if wanted(rel + d) and not (rel.startswith("crates/") and d == "tests")]
        for f in files:
            r = rel + f
            if not wanted(r) or r == "Cargo.lock":
                continue
            p = os.path.join(root, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            data = open(p, "rb").read()
            if r == "Cargo.toml":
                t = data.decode()
                t = t.replace('members = ["crates/*", "fuzz/*"]', 'members = ["crates/*"]')
                data = t.encode()
            put(os.path.join(WS, r), data)
            seen.add(r)
    for sub, _, files in os.walk(os.path.join(VERIF, "harness")):
        for f in files:
            r = "crates/vharness/" + os.path.relpath(os.path.join(sub, f), os.path.join(VERIF, "harness"))
            put(os.path.join(WS, r), open(os.path.join(sub, f), "rb").read())
            seen.add(r)
    for root, dirs, files in os.walk(WS):
        for f in files:
            r = os.path.relpath(os.path.join(root, f), WS)
            if r not in seen and r not in ("Cargo.lock", ".lock.src"):
                os.remove(os.path.join(root, f))
    lock = open(os.path.join(REPO, "Cargo.lock"), "rb").read()
    if put(os.path.join(WS, ".lock.src"), lock) or not os.path.exists(os.path.join(WS, "Cargo.lock")):
        put(os.path.join(WS, "Cargo.lock"), lock)


def build_engine():
    e = env()
    sr = sysroot()
    e["RUSTFLAGS"] = "-Clink-arg=-Wl,-rpath,%s/lib" % sr
    e["CARGO_TARGET_DIR"] = os.path.join(CACHE, "engine")
    r = subprocess.run(["cargo", "build", "--release", "--offline", "--manifest-path", os.path.join(VERIF, "engine/Cargo.toml")],
                       env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-6000:])
        raise SystemExit("engine build failed")
    return os.path.join(CACHE, "engine/release/mxsa")


def check_ws(engine):
    e = env()
    e["RUSTFLAGS"] = "-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=off -Zinline-mir=no -Awarnings"
    e["CARGO_TARGET_DIR"] = TARGET
    e["RUSTC_WORKSPACE_WRAPPER"] = engine
    e["MXSA_RECORD"] = ARGS
    e["VERGEN_IDEMPOTENT"] = "1"
    os.makedirs(ARGS, exist_ok=True)
    r = subprocess.run(["cargo", "check", "--offline", "-p", "vharness", "-p", "mitex-cli"],
                       cwd=WS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-8000:])
        raise SystemExit("the tree does not type-check")


def main():
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t = time.time()
        eng = build_engine()
        t1 = time.time()
        sync()
        check_ws(eng)
        print("prep: engine %.1fs, tree %.1fs" % (t1 - t, time.time() - t1), file=sys.stderr)
    return eng


if __name__ == "__main__":
    main()
