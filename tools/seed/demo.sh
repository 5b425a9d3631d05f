#!/bin/bash
# Builds demo.rs against the repository in the current directory and runs it: exit 0 if the property held.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$here/prelude.rs" "$work/src/prelude.rs"
[ -f "$here/Cargo.lock" ] && cp "$here/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[profile.dev]
debug = 0
incremental = false
[dependencies]
beekem = { path = "$repo/beekem", features = ["test_utils"] }
keyhive_crypto = { path = "$repo/keyhive_crypto" }
keyhive_core = { path = "$repo/keyhive_core", features = ["test_utils"] }
future_form = "0.3.1"
futures = "0.3.31"
nonempty = { version = "0.10.0", features = ["serialize"] }
dupe = "0.9.0"
bincode = "1.3"
serde = { version = "1.0", features = ["derive", "rc"] }
rand = "0.8.5"
ed25519-dalek = { version = "2.1", features = ["rand_core", "serde"] }
blake3 = "1.5"
T
cd "$work" && cargo build -q --offline --target-dir "$work/target" 2> "$work/log" || { tail -30 "$work/log"; echo "demo did not build"; exit 2; }
timeout 120 "$work/target/debug/demo"
