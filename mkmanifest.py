#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, subprocess
V = os.path.dirname(os.path.abspath(__file__))
import sys
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from checks import CHECKS
NA = {}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
hooks = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines() if "verification hooks" in l]
m = dict(version=1, setup_cmd="true", hooks=dict(guard="hydra_verif", enable="RUSTFLAGS=--cfg hydra_verif", source_commits=hooks), checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in CHECKS:
        m["checks"].append(dict(
            property=i, quick_cmd=f"bin/check {i} quick", thorough_cmd=f"bin/check {i} thorough",
            technique="symbolic execution of the real code's LLVM IR, every branch and assertion decided by SMT (z3)",
            level="model_checking",
            level_note="Every input, schedule and fault choice within the stated bounds is covered by symbolic paths whose feasibility and assertions z3 decides; "
                       "counterexamples are replayed natively before they are reported. Bounds: " + CHECKS[i]["bounds"] +
                       ". Trusted: rustc's lowering to LLVM IR, the engine, z3, and the shims that stand in for tokio's scheduler/timers/sockets, dashmap, arc-swap, flume's waiting and sha2/hmac."))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
