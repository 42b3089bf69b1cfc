#!/bin/bash
# cwd: the repository. Builds main.rs (beside this file) with poseidon-circuit and a stand-in for the
# halo2_proofs crate (which is not available offline) in a scratch folder, and runs it.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
[ -f /opt/vp/env.sh ] && source /opt/vp/env.sh
work=$(mktemp -d) || exit 2
trap 'rm -rf -- "${work:?}"' EXIT
mkdir "$work/demo" "$work/demo/src"
cp -r "$repo/poseidon-base" "$repo/poseidon-circuit" "$work/"
cp -r "$here/shim" "$work/shim"
cp "$here"/*.rs "$work/demo/src/"
[ -f /opt/vp/Cargo.lock ] && cp /opt/vp/Cargo.lock "$work/Cargo.lock"
cat > "$work/demo/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
poseidon-base = { path = "../poseidon-base", features = ["test"] }
poseidon-circuit = { path = "../poseidon-circuit", default-features = false, features = ["short", "parallel_syn"] }
halo2_proofs = { path = "../shim/halo2_shim", features = ["parallel_syn"] }
halo2curves = { version = "0.1.0", features = ["derive_serde"] }
ff = "0.13"
T
python3 - "$repo" "$work" <<'P'
import sys, tomllib, json
repo, work = sys.argv[1:]
ws = tomllib.load(open(repo + "/Cargo.toml", "rb"))["workspace"]
def inl(v):
    if isinstance(v, dict): return "{ " + ", ".join(f"{json.dumps(k)} = {inl(x)}" for k, x in v.items()) + " }"
    if isinstance(v, list): return "[" + ", ".join(map(inl, v)) + "]"
    return json.dumps(v)
deps = ws.get("dependencies", {})
for name, crate in {"halo2_proofs": "halo2_shim", "log": "stub_log", "thiserror": "stub_thiserror", "rand_xorshift": "stub_rand_xorshift", "bencher": "stub_bencher"}.items():
    if name in deps:
        d = deps[name]
        new = {"path": "shim/" + crate}
        if isinstance(d, dict):
            new.update({k: d[k] for k in ("features", "default-features", "optional") if k in d})
        deps[name] = new
with open(work + "/Cargo.toml", "w") as f:
    f.write('[workspace]\nresolver = "2"\nmembers = ["poseidon-base", "poseidon-circuit", "demo"]\nexclude = ["shim"]\n[workspace.dependencies]\n')
    for k, v in deps.items(): f.write(f"{k} = {inl(v)}\n")
    f.write("[profile.dev]\nopt-level = 1\n")
P
sed -i '/^\[workspace\]/d' "$work"/shim/*/Cargo.toml
export CARGO_TARGET_DIR="$work/target" CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
cd "$work" && cargo build -q --offline -p demo 2>"$work/log" || { cat "$work/log"; exit 3; }
timeout 200 "$work/target/debug/demo"
