#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the harnesses that exist."""
import glob, json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if glob.glob(os.path.join(V, "mc", "harness", i + "*.cpp")):
        n = NOTES.get(i, {})
        checks.append(dict(property=i, quick_cmd="python3 mc/run.py %s --tier quick" % i, thorough_cmd="python3 mc/run.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique=n.get("technique", "bounded exhaustive exploration of the implementation (stateless model checking) against a reference model"),
            level="model_checking", level_note=n.get("note", "Every behaviour within the stated bounds is executed on the real code and compared with the model; nothing is claimed beyond the bounds.")))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", hooks=dict(guard="DART_MC_HOOKS", enable="no hooks are needed: the checks include /repo's headers and compile /repo's sources unmodified", source_commits=[]), checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); print(len(checks), "checks", len(na), "not claimed")
