#!/usr/bin/env python3
"""Writes the two harness manifests: sym (ideal crypto, symbolic build) and native (real crypto, replay build)."""
import os
H = os.path.dirname(os.path.abspath(__file__))
BINS = sorted(f[:-3] for f in os.listdir(f"{H}/src/bin") if f.endswith(".rs"))
DEPS = '''beekem = { path = "/repo/beekem", features = ["test_utils"] }
keyhive_crypto = { path = "/repo/keyhive_crypto" }
keyhive_core = { path = "/repo/keyhive_core", features = ["test_utils"] }
future_form = "0.3.1"
futures = "0.3.31"
futures-util = "0.3.31"
nonempty = { version = "0.10.0", features = ["serialize"] }
dupe = "0.9.0"
bincode = "1.3"
serde = { version = "1.0", features = ["derive", "rc"] }
rand = "0.8.5"
ed25519-dalek = { version = "2.1", features = ["rand_core", "serde"] }
x25519-dalek = { version = "2.0", features = ["serde", "reusable_secrets", "static_secrets"] }
blake3 = "1.5"
'''
for kind in ("sym", "native"):
    t = f'[package]\nname = "harness"\nversion = "0.1.0"\nedition = "2021"\nautobins = false\n\n[workspace]\n\n[lib]\nname = "harness"\npath = "../src/lib.rs"\n\n'
    for b in BINS: t += f'[[bin]]\nname = "{b}"\npath = "../src/bin/{b}.rs"\n\n'
    t += '[dependencies]\nksym = { path = "../../ksym/rt"' + (', features = ["native"]' if kind == "native" else "") + " }\n" + DEPS
    ideal = ("blake3", "ed25519-dalek", "x25519-dalek", "chacha20poly1305") if kind == "sym" else ()
    # futures-util only so that the harness chooses where a task waits for a lock (see its lock/mutex.rs)
    t += "\n[patch.crates-io]\n" + "".join(f'{c} = {{ path = "../../ksym/stubs/{c}" }}\n' for c in (*ideal, "futures-util"))
    if kind == "sym":
        t += '\n[profile.release]\nopt-level = 2\nlto = "fat"\npanic = "abort"\ncodegen-units = 1\ndebug = 0\noverflow-checks = true\ndebug-assertions = false\n'
    else:
        t += '\n[profile.release]\nopt-level = 1\ndebug = 0\noverflow-checks = true\n'
    p = f"{H}/{kind}/Cargo.toml"
    if not os.path.exists(p) or open(p).read() != t: open(p, "w").write(t)
