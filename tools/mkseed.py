#!/usr/bin/env python3
"""mkseed.py BATCH.py: writes /verif/seeded/<id>/ from a table SEEDS of
(id, property, {file: [(old, new)...]}, demo python, needs, what it breaks)."""
import sys, os, subprocess, tempfile, json, shutil, runpy
B = "bb7fb46"
for (i, prop, edits, demo, needs, breaks) in runpy.run_path(sys.argv[1])["SEEDS"]:
    if len(sys.argv) > 2 and i not in sys.argv[2:]: continue
    w = tempfile.mkdtemp(); d = "/verif/seeded/"+i
    subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x" % (w, w), shell=True, check=True)
    for f, reps in edits.items():
        p = os.path.join(w, f); s = open(p, newline="").read(); nl = "\r\n" if "\r\n" in s else "\n"
        for a, b in reps:
            a, b = a.replace("\n", nl), b.replace("\n", nl)
            assert s.count(a) == 1, (i, f, s.count(a), a)
            s = s.replace(a, b)
        open(p, "w", newline="").write(s)
        base = subprocess.run(["git", "-C", "/repo", "show", B+":"+f], capture_output=True).stdout.decode("utf-8")
        df = subprocess.run(["git", "-C", w, "diff", "-U0", "--", f], capture_output=True).stdout.decode("utf-8")
        bl = set(x.strip() for x in base.splitlines())
        rem = [l[1:] for l in df.splitlines() if l.startswith("-") and not l.startswith("---")]
        if not any(l.strip() in bl for l in rem): print("WARNING", i, f, "no changed line is an original one:", rem)
        elif not all(l.strip() in bl for l in rem): print("note", i, f, "some changed lines are not original")
    os.makedirs(d, exist_ok=True)
    open(d+"/patch.diff", "wb").write(subprocess.run(["git", "-C", w, "diff"], capture_output=True).stdout)
    open(d+"/demo.py", "w").write(demo.lstrip("\n"))
    open(d+"/demo.sh", "w").write('#!/bin/sh\nH="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONPATH="$PWD"\nexec /opt/venv/bin/python -W ignore "$H/demo.py"\n')
    os.chmod(d+"/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d+"/meta.json", "w"), indent=1)
    shutil.rmtree(w); print("made", i)
