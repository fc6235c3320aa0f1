#!/usr/bin/env python3
"""mkdesign.py: DESIGN.md from tools/design.md, the table of findings and the planted changes"""
import json, glob, os, collections
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = json.load(open(H+"/tools/findings.json")); g = collections.OrderedDict()
for x in sorted(f["fixed"], key=lambda x: x["property"]): g.setdefault(x["property"], []).append(x["subject"])
ft = "\n".join("* %s: %s" % (p, "; ".join(s)) for p, s in g.items())
st = "\n".join("* %s `%s`: needs %s; %s" % (m["property"], os.path.basename(os.path.dirname(p)), m["needs"], m["what_it_breaks"])
               for m, p in sorted(((json.load(open(p)), p) for p in glob.glob(H+"/seeded/*/meta.json")), key=lambda x: (x[0]["property"], x[1])))
t = open(H+"/tools/design.md").read()
open(H+"/DESIGN.md", "w").write(t.replace("FINDTABLE", "%d defects.\n\n%s" % (len(f["fixed"]), ft)).replace("SEEDTABLE", st))
