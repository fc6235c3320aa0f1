#!/usr/bin/env python3
"""Writes /verif/known_findings.json: fixed entries (commit looked up by subject in /repo) and open findings."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h\t%s"], capture_output=True, text=True).stdout
subj = dict((l.split("\t", 1)[1], l.split("\t", 1)[0]) for l in log.splitlines() if "\tfix:" in l)
T = json.load(open(os.path.join(V, "tools", "findings.json")))
out = []; seen = set()
for f in T["fixed"]:
    s = "fix: "+f["subject"]; h = subj[s]; seen.add(s)
    out.append(dict(property=f["property"], key=f.get("key", ""), status="fixed", commit=h,
                    what="fixed: property=%s %s %s" % (f["property"], h, f.get("what", f["subject"]))))
for s in subj:
    if s not in seen: print("NOT LISTED:", s)
for f in T["open"]: out.append(dict(f, status="open"))
json.dump(dict(findings=out), open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(out), "findings")
