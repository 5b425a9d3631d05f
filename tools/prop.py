#!/usr/bin/env python3
"""prop.py < one JSON object per line: replaces or adds those properties in properties.jsonl."""
import json, sys, os
P = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
cur = {}
if os.path.exists(P):
    for l in open(P):
        if l.strip(): d = json.loads(l); cur[d["id"]] = d
for l in sys.stdin.read().split("\n%%\n"):
    if l.strip():
        d = eval(l)
        cur[d["id"]] = dict(id=d["id"], title=d["title"], statement=d["statement"], quantifier=dict(over=d["over"], text=d["q"]), why_tests_cant=d["why"],
            anchors=dict(files=d["files"], mechanism=[dict(name=n, where=w) for n, w in d["mech"]], observe_at=d["obs"], hook_needed=d.get("hook")))
open(P, "w").write("".join(json.dumps(cur[k]) + "\n" for k in sorted(cur)))
