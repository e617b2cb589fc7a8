#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks. Run: python3 lib/mkmanifest.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {
 "seq": "TLA+ specification checked with TLC; its behaviours replayed into the real code and recorded histories of the real code validated against it with TLC",
 "sched": "TLA+ specification checked with TLC; histories recorded from the real code under a controlled thread scheduler validated against it with TLC",
 "proc": "TLA+ specification checked with TLC; histories recorded from several real processes sharing a store validated against it with TLC",
}
T = getattr(checks, "META")
man = {"version": 1, "setup_cmd": "bash bin/setup",
       "checks": [], "not_applicable": []}
if getattr(checks, "HOOK_COMMITS", None):
    man["hooks"] = {"guard": "SPHDE_VERIF", "enable": "compile /repo/src with -DSPHDE_VERIF (lib/vlib.py, mode sched)",
                    "source_commits": checks.HOOK_COMMITS}
for p in props:
    i = p["id"]
    if i in checks.ALL:
        tech, note = T[i]
        man["checks"].append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                              "technique": TECH[tech], "level": "model_checking", "level_note": note})
    else:
        man["not_applicable"].append({"property": i, "reason": getattr(checks, "NA", {}).get(i, "not built yet; nothing is claimed for it")})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
