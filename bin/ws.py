#!/usr/bin/env python3
"""Writes /verif/build/ws: a workspace whose members are symlinks into /repo and whose root manifest is
derived from /repo/Cargo.toml, with the git-only halo2_proofs replaced by the simulated backend and
other crates that are not available offline replaced by small stand-ins."""
import json, os, tomllib, sys, hashlib

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WS = HERE + "/build/ws"

def inline(v):
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{json.dumps(k)} = {inline(x)}" for k, x in v.items()) + " }"
    if isinstance(v, list):
        return "[" + ", ".join(map(inline, v)) + "]"
    return json.dumps(v, ensure_ascii=False)

def write(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)

with open(f"{REPO}/Cargo.toml", "rb") as f:
    root = tomllib.load(f)
deps = root["workspace"].setdefault("dependencies", {})
stubs = {"halo2_proofs": "halo2_shim", "log": "stub_log", "thiserror": "stub_thiserror",
         "rand_xorshift": "stub_rand_xorshift", "bencher": "stub_bencher"}
for name, crate in stubs.items():
    if name in deps:
        d = deps[name]
        new = {"path": f"{HERE}/crates/{crate}"}
        if isinstance(d, dict):
            for k in ("features", "default-features", "optional"):
                if k in d:
                    new[k] = d[k]
        deps[name] = new
root.pop("patch", None)
os.makedirs(WS, exist_ok=True)
for top in {m.split("/")[0] for m in root["workspace"]["members"]}:
    link = f"{WS}/{top}"
    if os.path.islink(link):
        if os.readlink(link) == f"{REPO}/{top}":
            continue
        os.unlink(link)
    os.symlink(f"{REPO}/{top}", link)
# the circuit crate once more, built without any of its features
pc = f"{REPO}/poseidon-circuit"
if os.path.isdir(pc):
    with open(f"{pc}/Cargo.toml", "rb") as f:
        man = tomllib.load(f)
    man["package"]["name"] = "poseidon-circuit-plain"
    man.get("lib", {}).pop("name", None)
    man.get("features", {})["default"] = []
    for k in ("dev-dependencies", "bench", "test", "example"):
        man.pop(k, None)
    plain = f"{WS}/poseidon-circuit-plain"
    os.makedirs(plain, exist_ok=True)
    for e in os.listdir(pc):
        if e in ("Cargo.toml", "target", "Cargo.lock"):
            continue
        link = f"{plain}/{e}"
        if os.path.islink(link):
            if os.readlink(link) == f"{pc}/{e}":
                continue
            os.unlink(link)
        os.symlink(f"{pc}/{e}", link)
    for e in os.listdir(plain):
        if e != "Cargo.toml" and e not in os.listdir(pc):
            os.unlink(f"{plain}/{e}")
    write(f"{plain}/Cargo.toml", "".join(f"{k} = {inline(v)}\n" for k, v in man.items()))
    root["workspace"]["members"] = root["workspace"]["members"] + ["poseidon-circuit-plain"]
write(f"{WS}/Cargo.toml", "".join(f"{k} = {inline(v)}\n" for k, v in root.items() if k != "profile"))

# content hash of everything that is built from /repo
h = hashlib.sha256()
for base, dirs, files in os.walk(REPO):
    dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
    for f in sorted(files):
        p = os.path.join(base, f)
        h.update(os.path.relpath(p, REPO).encode())
        try:
            with open(p, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
        except OSError:
            pass
print(h.hexdigest())
