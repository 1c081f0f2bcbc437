#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "Every transition is an execution of the real application (message router, keepers, block hooks); nothing is modelled. Holds for every operation sequence of the stated alphabets and depths from the stated initial states (evidence file); says nothing about amounts, participants or depths outside them. Trusts cosmos-sdk/CometBFT, the Go toolchain and the oracle's independent re-statement of the rule."
T_BFS = "explicit-state model checking of the implementation: breadth-first enumeration of all operation sequences, refinement oracle on every transition"
CLAIMED = json.load(open(os.path.join(ROOT, "tools", "claimed.json")))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        c = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": c.get("technique", T_BFS), "level": "model_checking",
                       "level_note": (c["note"] + " " if c.get("note") else "") + BASE})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks share one model checker (mc/), overlaid into /repo as package verifmc at build time; no file of /repo is changed and no build tag is needed."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
