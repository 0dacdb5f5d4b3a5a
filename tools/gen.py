#!/usr/bin/env python3
"""Writes checks.json and MANIFEST.json from the definitions in checks.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
import checks
root = os.path.dirname(here)
props = {}
for l in open(root + "/properties.jsonl"):
    d = json.loads(l)
    props[d["id"]] = d
cfg = {}
man = {"version": 1, "setup_cmd": "./setup.sh",
       "hooks": {"guard": "none", "enable": "", "source_commits": []},
       "checks": [], "not_applicable": [], "notes": checks.NOTES}
for pid in sorted(props):
    c = checks.C.get(pid)
    if not c:
        man["not_applicable"].append({"property": pid, "reason": checks.NA.get(pid, "check not built yet")})
        continue
    c = dict(c)
    c["title"] = props[pid]["title"]
    note = c.pop("note")
    cfg[pid] = c
    man["checks"].append({
        "property": pid, "quick_cmd": "./check %s quick" % pid, "thorough_cmd": "./check %s thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": "symbolic execution of the real Go code (SSA regenerated from /repo on every run) with SMT-decided branches and assertions; counterexamples replayed natively",
        "level": "model_checking", "level_note": note})
json.dump(cfg, open(root + "/checks.json", "w"), indent=1)
open(root + "/checks.json", "a").write("\n")
json.dump(man, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
