#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.py and tools/na.json."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from checks import CHECKS
na = json.load(open(f"{V}/tools/na.json"))
m = dict(version=1, setup_cmd="python3 check.py setup quick",
  hooks=dict(guard="keyhive_verif", enable="RUSTFLAGS='--cfg keyhive_verif' (set by check.py)", source_commits=na["hooks"]),
  checks=[dict(property=k, quick_cmd=f"python3 check.py {k} quick", thorough_cmd=f"python3 check.py {k} thorough", technique="symbolic execution of the compiled code (LLVM bitcode from rustc) with z3 deciding every branch and assertion, counterexamples replayed natively", level="model_checking", level_note=c["bounds"]) for k, c in sorted(CHECKS.items())],
  not_applicable=[dict(property=k, reason=v) for k, v in sorted(na["na"].items())])
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1); open(f"{V}/MANIFEST.json", "a").write("\n")
