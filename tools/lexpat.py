"""the patterns of the lexer, decided as regular languages by ../lexpat"""
import json, os, subprocess
import prep
def run(pid, ck):
    e = dict(os.environ, CARGO_TARGET_DIR=os.path.join(prep.CACHE, "lexpat"))
    r = subprocess.run(["cargo", "build", "--release", "--offline", "--manifest-path", os.path.join(prep.VERIF, "lexpat/Cargo.toml")], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-3000:])
        raise SystemExit("lexpat does not build")
    src = os.path.join(prep.REPO, "crates/mitex-lexer/src")
    r = subprocess.run([os.path.join(prep.CACHE, "lexpat/release/lexpat"), src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        return [dict(prop="pat", key="the patterns can be read", loc=src, ok=False, msg=r.stderr.strip(), path=[])], {}
    d = json.loads(r.stdout)
    for o in d["obligations"]:
        o["loc"] = os.path.relpath(o["loc"].rsplit(":", 1)[0], prep.REPO) + ":" + o["loc"].rsplit(":", 1)[1]
    return d["obligations"], dict(patterns=d["patterns"], pairs_of_states=d["states"])
