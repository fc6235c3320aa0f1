#!/usr/bin/env python3
"""addfix.py <property> : list /repo's last fix commit under <property> in findings.json"""
import json, subprocess, sys, os
p=os.path.join(os.path.dirname(os.path.abspath(__file__)),"findings.json"); d=json.load(open(p))
s=subprocess.check_output(["git","-C","/repo","log","-1","--format=%s"],text=True).strip()
s=sys.argv[2] if len(sys.argv)>2 else s
s=s.replace("fix: ","",1)
if not any(x["subject"]==s for x in d["fixed"]): d["fixed"].append(dict(property=sys.argv[1],subject=s))
with open(p,"w") as f:
    f.write('{"fixed": [\n'+",\n".join(json.dumps(x) for x in d["fixed"])+'\n], "open": [\n'+",\n".join(json.dumps(x) for x in d["open"])+"\n]}\n")
