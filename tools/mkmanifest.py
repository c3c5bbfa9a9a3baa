#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import registry

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        checks.append(dict(
            property=i, quick_cmd="bin/check %s --tier quick" % i, thorough_cmd="bin/check %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique=registry.TECHNIQUE.get(i, "TLA+ specification model-checked with TLC; TLC-generated and random stimuli run on the real code; recorded traces validated against the specification by TLC"),
            level="model_checking", level_note=registry.NOTES.get(i, registry.DEFAULT_NOTE)))
    else:
        na.append(dict(property=i, reason=registry.NOT_APPLICABLE.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="bash bin/setup", checks=checks, not_applicable=na,
         notes="One TLA+ specification (spec/), checked with TLC, bound to the code by trace validation; see DESIGN.md.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
