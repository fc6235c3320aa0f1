#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table of built checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
# id -> (technique, level note)
CHECKS = json.load(open(os.path.join(V, "tools", "checks.json")))
m = dict(version=1,
         setup_cmd="sh tools/setup.sh",
         hooks=dict(guard="none", enable="no hooks: the checks import /repo's working tree as it is and observe it through its public functions (distance-matrix proxies, recording wrappers passed as arguments)", source_commits=[]),
         checks=[], not_applicable=[],
         notes="Language: TLA+ checked with TLC (see DESIGN.md). Every check: real code -> JSON records -> TLC decides each record against a module of spec/; repairs of genuine defects are the fix: commits of /repo, listed in known_findings.json.")
for p in props:
    c = CHECKS.get(p["id"])
    if c:
        m["checks"].append(dict(property=p["id"], quick_cmd="VERIF_TIER=quick ./run.sh "+p["id"],
            thorough_cmd="VERIF_TIER=thorough ./run.sh "+p["id"],
            evidence_file="evidence/%s.json" % p["id"], technique=c["technique"],
            level="model_checking", level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=p["id"], reason="check not built yet"))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
