#!/usr/bin/env python3
"""check.py ID TIER: decides one property on /repo's current tree. See DESIGN.md."""
import fcntl, glob, hashlib, json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from checks import CHECKS
T = f"{V}/target"
ENV = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
ENV["RUSTFLAGS"] = "--cfg keyhive_verif"
ENV.pop("CARGO_TARGET_DIR", None)

def run(cmd, cwd, timeout=840, env=ENV):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def die(msg, tail=""):
    print(f"CHECK-ERROR {msg}\n{tail[-6000:]}", flush=True)
    sys.exit(2)

def source_hash():
    h = hashlib.sha256()
    for c in ("beekem", "keyhive_crypto", "keyhive_core"):
        for r, ds, fs in sorted(os.walk(f"/repo/{c}")):
            ds[:] = [d for d in ds if d not in ("target", "node_modules")]
            for f in sorted(fs):
                if f.endswith((".rs", ".toml")):
                    p = os.path.join(r, f); h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def engine():
    e = dict(ENV); e["RUSTFLAGS"] = ""
    r = run(["cargo", "build", "--release", "--offline", "--target-dir", f"{T}/engine"], f"{V}/ksym/engine", env=e)
    if r.returncode: die("engine build failed", r.stdout)
    sysroot = run(["rustc", "--print", "sysroot"], V).stdout.strip()
    lib = glob.glob(f"{sysroot}/lib/libLLVM.so.*") or glob.glob(f"{sysroot}/lib/libLLVM*.so")
    if not lib: die("libLLVM not found")
    return f"{T}/engine/release/ksym", lib[0]

def fresh(kind):
    """Forgets compiled crates of /repo whose sources are not the current ones (mtimes alone can lie)."""
    h, stamp = source_hash(), f"{T}/{kind}/.source"
    if os.path.exists(stamp) and open(stamp).read() == h: return
    if os.path.isdir(f"{T}/{kind}"):
        run(["cargo", "clean", "--release", "--offline", "--target-dir", f"{T}/{kind}", "-p", "beekem", "-p", "keyhive_crypto", "-p", "keyhive_core"], f"{V}/harness/{kind}")
    os.makedirs(f"{T}/{kind}", exist_ok=True)
    open(stamp, "w").write(h)

def sym_build(b):
    t0 = time.time(); fresh("sym")
    for f in glob.glob(f"{T}/sym/release/deps/{b}-*.bc"):
        if not os.path.exists(f[:-3]): os.remove(f)
    r = run(["cargo", "rustc", "--release", "--offline", "--target-dir", f"{T}/sym", "--bin", b, "--", "--emit=llvm-bc", "-C", "link-args=-Wl,--unresolved-symbols=ignore-all"], f"{V}/harness/sym")
    if r.returncode: die("harness build failed", r.stdout)
    bcs = sorted(glob.glob(f"{T}/sym/release/deps/{b}-*.bc"), key=os.path.getmtime)
    if not bcs: die("no bitcode", r.stdout)
    return bcs[-1], time.time() - t0

def native_build(b):
    fresh("native")
    r = run(["cargo", "build", "--release", "--offline", "--target-dir", f"{T}/native", "--bin", b], f"{V}/harness/native")
    if r.returncode: die("replay build failed", r.stdout)
    return f"{T}/native/release/{b}"

def findings():
    p = f"{V}/known_findings.jsonl"
    return [json.loads(l) for l in open(p) if l.strip() and not l.startswith("#")] if os.path.exists(p) else []

def split(cfg, entry):
    """`bin:entry`, or an entry of the check's own harness program."""
    return tuple(entry.split(":")) if ":" in entry else (cfg["bin"], entry)

def main():
    pid, tier = sys.argv[1], sys.argv[2]
    if pid == "setup":
        os.makedirs(T, exist_ok=True)
        engine()
        b = sorted({split(c, e)[0] for c in CHECKS.values() for e, _, _ in c["quick"]})
        for x in b: sym_build(x)
        native_build(b[0])
        print("setup done"); return
    cfg, t0 = CHECKS[pid], time.time()
    os.makedirs(f"{V}/evidence", exist_ok=True); os.makedirs(T, exist_ok=True)
    lock = open(f"{T}/.lock", "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    ksym, llvm = engine()
    runs = [split(cfg, e) + (a, t) for e, a, t in (cfg[tier] if tier in cfg else cfg["quick"])]
    bcs, tb = {}, 0
    for b in dict.fromkeys(r[0] for r in runs): bcs[b], dt = sym_build(b); tb += dt
    lock.close()
    tot, covers, asserts, fns, viols, errs, per = {}, {}, {}, set(), [], [], []
    jobs = int(os.environ.get("KSYM_JOBS", "8"))
    budget = 780 if tier == "quick" else 6 * 3600
    known = [f for f in findings() if f.get("property") == pid and "fixed" not in f]
    new, groups, confirmed, unrep, replayed = [], {}, [], [], 0
    for b, entry, arg, secs in runs:
        left = budget - (time.time() - t0)
        if left < 5: errs.append(f"{entry}({arg}): no time left"); break
        out = f"{T}/{pid}-{entry}-{arg}.json"
        if os.path.exists(out): os.remove(out)
        r = run([ksym, "--llvm", llvm, "--bc", bcs[b], "--entry", entry, "--args", str(arg), "--jobs", str(jobs), "--time", str(int(min(secs, left))), "--out", out], V, timeout=budget + 120)
        if r.returncode == 3 or not os.path.exists(out): die(f"{entry}({arg}): executor failed ({r.returncode})", r.stdout)
        o = json.load(open(out))
        for k in ("paths", "pruned", "instrs", "forks", "queries", "cache_hits", "sat", "unsat", "unknown", "solver_s", "timeouts"): tot[k] = tot.get(k, 0) + o.get(k, 0)
        for k, v in o["covers"].items(): covers[k] = covers.get(k, 0) + v
        for k, v in o["asserts"].items(): asserts[k] = asserts.get(k, 0) + v
        fns.update(o["functions"])
        for k, v in o["errors"].items(): errs.append(f"{entry}({arg}): {k} x{v}")
        if o.get("timeouts"): errs.append(f"{entry}({arg}): {o['timeouts']} states left at the time limit")
        per.append({"entry": entry, "arg": arg, "wall_s": o["wall_s"], "paths": o["paths"], "queries": o["queries"], "solver_s": o["solver_s"], "forks": o["forks"], "instructions": o["instrs"]})
        here = []
        for v in o["violations"]:
            viols.append(v)
            k = next((f for f in known if f["assertion"] == v["id"] and f.get("entry", entry) == entry), None)
            if k: groups.setdefault(k["what"], []).append(v)
            else: here.append(v)
        if not here: continue
        # every violation is replayed against the code as built with the real cryptography
        nat = native_build(b)
        left = max(60, min(240, 860 - (time.time() - t0))) if tier == "quick" else 1200
        each = max(10, int(left / len(here)))
        for v in here:
            p = f"{V}/evidence/{pid}-replay-{len(confirmed) + len(unrep)}.txt"
            open(p, "w").write("".join(f"{k}={x}\n" for k, x in v["inputs"].items()))
            r = run([nat, entry, str(arg), p, v["id"], str(each)], V, timeout=each + 120)
            line = (r.stdout.strip().splitlines() or ["?"])[-1]
            open(p, "a").write("".join(f"# {x}\n" for x in [f"property {pid}: {v['id']}", f"replay: {nat} {entry} {arg} <this file> '{v['id']}' {each}", line] + ["notes: " + "; ".join(v["notes"])] + ["at " + s for s in v["stack"][:12]]))
            if r.returncode == 1 and line.startswith("REPRODUCED") or not v["id"].startswith("assert:") and (r.returncode < 0 or r.returncode > 100): confirmed.append((v["id"], p, line)); replayed += 1
            else: unrep.append(f"{entry}({arg}): {v['id']} not reproduced: {line[:300]}")
            if confirmed and tier == "quick": break
        if confirmed and tier == "quick": break
    missing = [] if confirmed else [c for c in cfg["covers"] if not covers.get(c)]
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking", "wall_s": round(time.time() - t0, 1), "violations": len(confirmed),
          "assumptions": cfg["assumptions"],
          "coverage": {"states": int(tot.get("forks", 0) + tot.get("paths", 0)), "transitions": int(tot.get("instrs", 0)), "traces_validated_against_impl": replayed, "exhaustive": not errs and not missing and not viols,
            "explanation": "Bounded symbolic execution of the optimised LLVM bitcode rustc produced from /repo's current source in this run; states = path-condition splits plus finished paths, transitions = bitcode instructions executed symbolically; every path's assertions were decided by z3 for all values of its symbolic inputs.",
            "bounds": cfg["bounds"], "paths": int(tot.get("paths", 0)), "pruned_paths": int(tot.get("pruned", 0)), "queries_discharged": int(tot.get("queries", 0)), "queries_sat": int(tot.get("sat", 0)), "queries_unsat": int(tot.get("unsat", 0)), "solver_s": round(tot.get("solver_s", 0), 3), "harness_build_s": round(tb, 1),
            "assertions_reached": asserts, "reachability_witnesses": covers, "functions_encoded_count": len(fns), "functions_encoded": sorted(fns), "per_entry": per, "incomplete": errs, "missing_witnesses": missing, "unreproduced": unrep,
            "samples": per[:3] + [{"witness": c, "paths": n} for c, n in list(covers.items())[:5]] + [{"violation": i, "replay": p, "result": l} for i, p, l in confirmed[:3]]}}
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    for w, vs in groups.items(): print(f"KNOWN-FINDING: property={pid} {w}")
    print(f"{pid} {tier}: paths={ev['coverage']['paths']} queries={ev['coverage']['queries_discharged']} solver={ev['coverage']['solver_s']}s instrs={ev['coverage']['transitions']} wall={ev['wall_s']}s")
    for u in unrep: print("UNREPRODUCED", u)
    for e in errs[:20]: print("INCOMPLETE", e)
    for i, p, l in confirmed: print(f"  {i}: {l[:300]}")
    if confirmed:
        print(f"VIOLATION property={pid} replay={confirmed[0][1]}"); sys.exit(1)
    if missing: print("MISSING-WITNESS", missing)
    sys.exit(2 if errs or missing or unrep else 0)
main()
